GEO='geometry = {path="/repo/geometry"}'
SEEDS=[
dict(id='C01-carry-hours', property='C01', edits=[('calendar/src/date.rs','        if self.hour >= 24. {\n            // ... remaining','        if self.hour > 24. {\n            // ... remaining')],
 deps=['calendar = {path="/repo/calendar"}'], main='''use calendar::Date;
fn main(){ let mut d=Date{month:3,day:4,hour:18.0}; d.add_hours(6.0); assert_eq!((d.month,d.day,d.hour),(3,5,0.0)); }
''', needs='an addition that lands exactly on midnight', breaks='the hour becomes 24 and the day is not carried'),
dict(id='C02-contains-newyear', property='C02', edits=[('calendar/src/period.rs','            date <= self.end || date >= self.start','            date <= self.end || date > self.start')],
 deps=['calendar = {path="/repo/calendar"}'], main='''use calendar::{Date,Period};
fn main(){ let s=Date{month:11,day:4,hour:18.0}; let e=Date{month:2,day:4,hour:0.0}; let p=Period::new(s,e,3600.0); assert!(p.contains(s)); assert!(p.contains(e)); }
''', needs='a period through new year and its own start date', breaks='the start is not contained in the period'),
dict(id='A02-band-scale', property='A02', edits=[('matrix/src/n_diag_generic_matrix.rs','                let fin = ini + non_zeroes;\n                let other_data = &vec[ini..fin];\n\n                for i in 0..non_zeroes {','                let fin = ini + non_zeroes;\n                let other_data = &vec[ini..fin];\n\n                for i in 0..non_zeroes.min(self.nrows) {')],
 deps=['matrix = {path="/repo/matrix"}'], main='''use matrix::NDiagGenericMatrix;
fn main(){ let m:NDiagGenericMatrix<5,f64>=NDiagGenericMatrix::new(1.0,2,6); let mut out=vec![0.;2]; m.column_prod_into(&[1.;6],&mut out).unwrap(); let want:Vec<f64>=(0..2).map(|r|(0..6).map(|c|m.get(r,c).unwrap()).sum()).collect(); assert_eq!(out,want); }
''', needs='a banded matrix with fewer rows than its band is wide', breaks='the column product drops terms'),
dict(id='A03-seidel-last', property='A03', edits=[('matrix/src/matrix.rs','            max_err = -Float::MAX;\n            for i in 0..n {\n                let err','            max_err = -Float::MAX;\n            for i in 0..n.min(3) {\n                let err')],
 deps=['matrix = {path="/repo/matrix"}'], main='''use matrix::Matrix;
fn main(){ let n=6; let mut a=Matrix::new(0.,n,n); for i in 0..n{a.set(i,i,1.0).unwrap();}
 a.set(5,5,10.).unwrap(); a.set(4,4,10.).unwrap(); a.set(4,5,4.).unwrap(); a.set(5,4,4.).unwrap(); let b=Matrix::new(1.,n,1); let mut x=Matrix::new(1.,n,1);
 a.gauss_seidel(&b,&mut x,200,1e-9).unwrap(); for i in 0..n{ let mut s=0.; for j in 0..n{ s+=a.get(i,j).unwrap()*x.get(j,0).unwrap(); } assert!((s-1.).abs()<1e-6,"row {i}: {s}"); } }
''', needs='a system of more than three unknowns whose first three converge before the others', breaks='Gauss-Seidel reports success before converging'),
dict(id='G03-refused-area', property='G03', edits=[('geometry/src/polygon3d.rs','        self.area -= hole_area;\n',''),('geometry/src/polygon3d.rs','        let hole_area = hole.area()?;\n',''),('geometry/src/polygon3d.rs','        // Check that this hole does not contain another hole in it.','        self.area -= hole.area()?;\n\n        // Check that this hole does not contain another hole in it.')],
 deps=[GEO], main='''use geometry::*;
fn sq(a:f64,b:f64)->Loop3D{ let mut l=Loop3D::new(); for (x,y) in [(a,a),(b,a),(b,b),(a,b)]{ l.push(Point3D::new(x,y,0.)).unwrap(); } l.close().unwrap(); l }
fn main(){ let mut p=Polygon3D::new(sq(0.,10.)).unwrap(); p.cut_hole(sq(4.,5.)).unwrap(); assert!(p.cut_hole(sq(3.,8.)).is_err()); assert_eq!(p.area(),99.); }
''', needs='a hole that is refused because it contains an existing hole', breaks='the refused hole is subtracted from the area'),
dict(id='G05-min-area', property='G05', edits=[('geometry/src/triangulation3d.rs',"if area < 1e-3 {","if area < 1e-3 || area < 0.1 * self.triangles[0].triangle.area() {")],
 deps=[GEO], main='''use geometry::*;
fn main(){ let shapes=[vec![(0.,0.),(12.,0.),(12.,6.),(6.,6.),(6.,12.),(0.,12.)],vec![(0.,0.),(12.,0.),(12.,10.),(8.,10.),(8.,6.),(4.,6.),(4.,10.),(0.,10.)],vec![(0.,0.),(6.,3.),(12.,0.),(10.,6.),(12.,12.),(6.,10.),(0.,12.),(2.,6.)],vec![(0.,0.),(9.,0.),(9.,9.),(0.,1.)]];
 for s in &shapes { for fa in [0.02,0.05,0.1,0.25,0.5,10.] { for ar in [1.3,1.5,2.,3.,5.] { let mut l=Loop3D::new(); for (x,y) in s { l.push(Point3D::new(*x,*y,0.)).unwrap(); } l.close().unwrap(); let p=Polygon3D::new(l).unwrap(); let a=p.area();
  if let Ok(t)=Triangulation3D::mesh_polygon(&p,a*fa,ar) { for q in t.get_trilist(){ assert!(q.area()<1e-3 || (q.area()<=a*fa*1.0001 && q.aspect_ratio()<ar*1.0001),"{} {} asked {} {}",q.area(),q.aspect_ratio(),a*fa,ar); } } }}} }
''', needs='a mesh whose first triangle is much larger than a badly shaped one', breaks='triangles with a worse aspect ratio than requested are left'),
]
