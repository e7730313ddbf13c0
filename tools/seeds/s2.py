GEO='geometry = {path="/repo/geometry"}'
REN=['rendering = {path="/repo/rendering"}',GEO]
SIM=['simple = {path="/repo"}','model = {path="/repo/model"}','heat = {path="/repo/heat"}','air = {path="/repo/air"}','light = {path="/repo/light"}','weather = {path="/repo/weather"}','calendar = {path="/repo/calendar"}','communication = {path="/repo/communication"}',GEO]
W='''use communication::{MetaOptions,SimulationModel}; use model::*; use weather::*; use calendar::Date;
#[allow(dead_code)] struct Fx(CurrentWeather); impl WeatherTrait for Fx { fn get_weather_data(&self,_d:Date)->CurrentWeather{ self.0 } }
#[allow(dead_code)] fn meta()->MetaOptions{ MetaOptions{latitude:-0.5,longitude:-1.2,standard_meridian:-1.05,elevation:10.} }
#[allow(dead_code)] const D:Date=Date{month:1,day:1,hour:1.};
'''
SEEDS=[
dict(id='G06-bbox-corner', property='G06', edits=[('geometry/src/transform.rs','            self.transform_pt(Point3D::new(bbox.max.x, bbox.min.y, bbox.max.z)),','            self.transform_pt(Point3D::new(bbox.max.x, bbox.min.y, bbox.min.z)),')],
 deps=[GEO], main='''use geometry::*;
fn main(){ let b=BBox3D::new(Point3D::new(0.,0.,0.),Point3D::new(1.,2.,3.)); for i in 0..24 { for j in 0..24 { let mut t=Transform::rotate_z(15.*i as f64); t*=Transform::rotate_y(15.*j as f64); let q=t.transform_bbox(b);
 for k in 0..8 { let c=t.transform_pt(Point3D::new((k&1) as f64,2.*((k>>1)&1) as f64,3.*((k>>2)&1) as f64)); let e=1e-6; assert!(c.x>=q.min.x-e&&c.y>=q.min.y-e&&c.z>=q.min.z-e&&c.x<=q.max.x+e&&c.y<=q.max.y+e&&c.z<=q.max.z+e,"{i} {j} {k}"); } } } }
''', needs='a rotation in which one particular corner of the box is the furthest one', breaks='the transformed box does not contain one of its corners'),
dict(id='G07-second-hit-phi', property='G07', edits=[('geometry/src/sphere3d.rs','                new_phi > self.phi_max','                phi > self.phi_max')],
 deps=[GEO], main='''use geometry::*; use geometry::intersection::*;
fn main(){ let s=Sphere3D::new_partial(1.0,Point3D::new(0.,0.,0.),-1.0,1.0,180.0); let r=Ray3D{origin:Point3D::new(0.1,-5.,0.2),direction:Vector3D::new(0.,1.,0.)};
 let p=s.simple_intersect(&r).expect("a hit"); assert!(p.y>0.9,"{p}"); }
''', needs='a sphere open around its axis and a ray that enters through the opening', breaks='the far side of the sphere is missed'),
dict(id='G10-set-c-normal', property='G10', edits=[('geometry/src/triangle3d.rs','        self.c = p;\n        self.set_area();\n        self.set_normal();','        self.c = p;\n        self.set_area();')],
 deps=[GEO], main='''use geometry::*;
fn main(){ let o=Point3D::new(0.,0.,0.); let mut t=Triangle3D::new(o,Point3D::new(1.,0.,0.),Point3D::new(0.,1.,0.)).unwrap(); t.set_c(Point3D::new(0.,0.,1.));
 assert!((t.normal()-Vector3D::new(0.,-1.,0.)).length()<1e-9); }
''', needs='a triangle whose third vertex is moved out of its plane', breaks='the normal stays that of the old triangle'),
dict(id='R02-triangle-bias', property='R02', edits=[('rendering/src/samplers.rs','    let u = 1. - aux;\n    let v = rand2 * aux;','    let u = 1. - rand1;\n    let v = rand2 * rand1;')],
 deps=REN, main='''use geometry::*;
fn main(){ let (a,b,c)=(Point3D::new(0.,0.,0.),Point3D::new(1.,0.,0.),Point3D::new(0.,1.,0.)); let n=200; let mut s=(0.,0.); for i in 0..n { for j in 0..n { let p=rendering::samplers::uniform_sample_triangle(((i as f64+0.5)/n as f64,(j as f64+0.5)/n as f64),a,b,c); s.0+=p.x; s.1+=p.y; } }
 let m=(n*n) as f64; assert!((s.0/m-1./3.).abs()<0.01 && (s.1/m-1./3.).abs()<0.01,"{:?}",(s.0/m,s.1/m)); }
''', needs='nothing but many samples of a triangle', breaks='the points of a triangle are not equally likely'),
dict(id='I01-leak-two-storeys', property='I01', edits=[('air/src/resolvers.rs','                                0.000042\n','                                0.000049\n')],
 deps=SIM, main=W+'''fn main(){ let (m,mut h)=Model::from_json(r#"{"buildings":[{"name":"b","n_storeys":2,"shelter_class":"SmallLotUrban"}],"spaces":[{"name":"s","volume":30.0,"building":"b","infiltration":{"type":"EffectiveAirLeakageArea","area":0.05}}]}"#).unwrap();
 let _t=heat::heat_model::ThermalModel::new(&meta(),(),&m,&mut h,1).unwrap(); let a=air::air_model::AirFlowModel::new(&meta(),(),&m,&mut h,1).unwrap(); let mut s=h.take_values().unwrap(); let sp=&m.spaces[0]; sp.set_dry_bulb_temperature(&mut s,20.).unwrap(); let mut al=a.allocate_memory(&s).unwrap(); let w=Fx(CurrentWeather{dry_bulb_temperature:10.,wind_speed:8.,..Default::default()});
 a.march(D,&w,&m,&mut s,&mut al).unwrap(); let v=sp.infiltration_volume(&s).unwrap(); let ws=8.0f64; let e=0.05*10000./1000.*(0.000290*10.+0.000042*ws*ws).sqrt(); assert!((v-e).abs()<1e-6,"{v} {e}"); }
''', needs='a building of two storeys in a small urban lot', breaks='the wind coefficient is that of three storeys'),
dict(id='U02-thermostat-deadband', property='U02', edits=[('src/occupant_behaviour.rs','                        let mut has_heating = false;','                        let mut has_heating = heating_setpoint.is_ok();')],
 deps=SIM, main=W+'''use simple::control_trait::SimpleControl;
fn main(){ let (m,mut h)=Model::from_json(r#"{"spaces":[{"name":"s","volume":30.0}],"hvacs":[{"type":"IdealHeaterCooler","name":"x","target_space":"s","heating_setpoint":18.0,"max_cooling_power":500.0,"cooling_setpoint":25.0}]}"#).unwrap();
 let _t=simple::MultiphysicsModel::new(&meta(),(),&m,&mut h,1).unwrap(); let mut s=h.take_values().unwrap(); let c=simple::OccupantBehaviour::new(&m).unwrap(); let sp=&m.spaces[0]; let get=|s:&SimulationState| match &m.hvacs[0] { HVAC::IdealHeaterCooler(x)=>x.heating_cooling_consumption(s).unwrap(), _=>unreachable!() };
 sp.set_dry_bulb_temperature(&mut s,30.).unwrap(); c.control(&m,&_t,&mut s).unwrap(); assert_eq!(get(&s),-500.); sp.set_dry_bulb_temperature(&mut s,22.).unwrap(); c.control(&m,&_t,&mut s).unwrap(); assert_eq!(get(&s),0.); }
''', needs='an ideal HVAC with a heating setpoint and no heating power, that has been cooling', breaks='cooling goes on below the cooling setpoint'),
dict(id='U04-air-after-heat', property='U04', edits=[('src/multiphysics_model.rs','''        // Then air flow
        self.air_flow_model
            .march(date, weather, model.borrow(), state, &mut alloc.air)?;

        // Then temperature
        self.thermal_model
            .march(date, weather, model.borrow(), state, &mut alloc.thermal)?;
''','''        // Then temperature
        self.thermal_model
            .march(date, weather, model.borrow(), state, &mut alloc.thermal)?;

        // Then air flow
        self.air_flow_model
            .march(date, weather, model.borrow(), state, &mut alloc.air)?;
''')],
 deps=SIM, main=W+'''fn main(){ let (m,mut h)=Model::from_json(r#"{"spaces":[{"name":"s","volume":30.0,"infiltration":{"type":"Constant","flow":0.05}}]}"#).unwrap();
 let a=simple::MultiphysicsModel::new(&meta(),(),&m,&mut h,1).unwrap(); let mut s=h.take_values().unwrap(); let sp=&m.spaces[0]; sp.set_dry_bulb_temperature(&mut s,20.).unwrap(); let mut al=a.allocate_memory(&s).unwrap(); let w=Fx(CurrentWeather{dry_bulb_temperature:-10.,wind_speed:8.,..Default::default()});
 a.march(D,&w,&m,&mut s,&mut al).unwrap(); let v=sp.dry_bulb_temperature(&s).unwrap(); assert!(v< 10.,"{v}"); }
''', needs='a space with infiltration and a change in the weather', breaks='the heat balance of each step uses the infiltration of the previous one'),
dict(id='M05-ramp-floor', property='M05', edits=[('model/src/model.rs','            if normal.z > 0.0 {\n                // Points Up... check front','            if normal.z > 0.9 {\n                // Points Up... check front')],
 deps=SIM, main='''use model::*;
fn main(){ let (m,_h)=Model::from_json(r#"{"substances":[{"name":"b","type":"Normal","thermal_conductivity":1.0,"density":1000.0,"specific_heat_capacity":1000.0}],"materials":[{"name":"b","substance":"b","thickness":0.1}],"constructions":[{"name":"c","materials":["b"]}],"spaces":[{"name":"s","volume":30.0}],
 "surfaces":[{"name":"ramp","category":"GroundFloor","construction":"c","vertices":[0.0,0.0,0.0, 4.0,0.0,0.0, 4.0,4.0,3.0, 0.0,4.0,3.0],"front_boundary":{"type":"Space","space":"s"},"back_boundary":{"type":"Ground"}}]}"#).unwrap();
 let (t,a)=m.get_space_sizes(); assert!((t-20.).abs()<1e-6 && (a["s"]-20.).abs()<1e-6,"{t}"); }
''', needs='a sloping floor', breaks='steep floors are counted in the space below them'),
dict(id='H05-heater-name-prefix', property='H05', edits=[('heat/src/heating_cooling.rs','''                    if s.name() == parent.target_space()? {
                        return Ok(Self::IdealHeaterCooler {''','''                    if s.name().starts_with(parent.target_space()?.as_str()) {
                        return Ok(Self::IdealHeaterCooler {''')],
 deps=SIM, main=W+'''fn main(){ let (m,mut h)=Model::from_json(r#"{"spaces":[{"name":"room10","volume":30.0},{"name":"room1","volume":30.0}],"hvacs":[{"type":"IdealHeaterCooler","name":"x","target_space":"room1","max_heating_power":500.0}]}"#).unwrap();
 let a=heat::heat_model::ThermalModel::new(&meta(),(),&m,&mut h,1).unwrap(); let mut s=h.take_values().unwrap(); if let HVAC::IdealHeaterCooler(x)=&m.hvacs[0] { x.set_heating_cooling_consumption(&mut s,500.).unwrap(); } let mut al=a.allocate_memory(&s).unwrap(); for i in 0..2 { m.spaces[i].set_dry_bulb_temperature(&mut s,20.).unwrap(); } let w=Fx(CurrentWeather{dry_bulb_temperature:20.,..Default::default()});
 a.march(D,&w,&m,&mut s,&mut al).unwrap(); let v=m.spaces[1].dry_bulb_temperature(&s).unwrap(); assert!(v>20.5,"{v}"); assert!((m.spaces[0].dry_bulb_temperature(&s).unwrap()-20.).abs()<1e-6); }
''', needs='two spaces of which one is named like the beginning of the other, and comes later', breaks='the HVAC heats the wrong space'),
dict(id='L01-back-window-sky', property='L01', edits=[('light/src/solar_model.rs','let view_factors = &self.optical_info.back_fenestrations_view_factors[index];','let view_factors = &self.optical_info.front_fenestrations_view_factors[index];')],
 deps=SIM, main=W+'''fn main(){ let (m,mut h)=Model::from_json(r#"{"substances":[{"name":"g","type":"Normal","thermal_conductivity":1.0,"density":2500.0,"specific_heat_capacity":800.0}],"materials":[{"name":"g","substance":"g","thickness":0.004}],"constructions":[{"name":"c","materials":["g"]}],"spaces":[{"name":"s","volume":30.0}],
 "fenestrations":[{"name":"f","category":"Window","construction":"c","vertices":[0.0,0.0,5.0, 2.0,0.0,5.0, 2.0,2.0,5.0, 0.0,2.0,5.0],"front_boundary":{"type":"Space","space":"s"},"back_boundary":{"type":"Outdoor"}}],
 "solar_options":{"n_solar_irradiance_points":10,"solar_ambient_divitions":30,"solar_sky_discretization":1}}"#).unwrap();
 let a=light::SolarModel::new(&meta(),m.solar_options.clone().unwrap(),&m,&mut h,1).unwrap(); let mut s=h.take_values().unwrap(); let mut al=a.allocate_memory(&s).unwrap(); let w=Fx(CurrentWeather{dry_bulb_temperature:20.,dew_point_temperature:5.,horizontal_infrared_radiation_intensity:Some(200.),date:Date{month:1,day:1,hour:1.},..Default::default()});
 a.march(D,&w,&m,&mut s,&mut al).unwrap(); let v=m.fenestrations[0].back_ir_irradiance(&s).unwrap(); assert!(v>380.,"{v}"); }
''', needs='a window with its back side outdoors', breaks='the back of a window sees the sky that its front faces'),
dict(id='R03-dielectric-refraction', property='R03', edits=[('rendering/src/material/dielectric.rs','let mut spectrum = Spectrum::gray(trans / cos2)','let mut spectrum = Spectrum::gray(trans / cos1)')],
 deps=REN, main='''use geometry::*; use rendering::material::*; use rendering::primitive::Primitive; use rendering::{Scene,Spectrum};
fn main(){ let mut s=Scene::new(); let m=s.push_material(Material::Dielectric(Dielectric{colour:Spectrum::gray(1.),refraction_index:1.5})); let p=|x:f64,y:f64,z:f64| Point3D::new(x,y,z);
 s.push_object(m,m,Primitive::Triangle(Triangle3D::new(p(-90.,-90.,0.),p(90.,-90.,0.),p(0.,120.,0.)).unwrap())); s.push_object(m,m,Primitive::Triangle(Triangle3D::new(p(-90.,-90.,-1.),p(0.,120.,-1.),p(90.,-90.,-1.)).unwrap())); s.build_accelerator();
 let mut rng=rendering::rand::get_rng(); for k in 0..200 { let a=0.1+1.2*(k as f64/200.); let d=Vector3D::new(a.sin(),0.,-a.cos());
  let (_,mut i)=s.cast_ray(Ray3D{origin:p(0.,0.,2.),direction:d},&mut [0usize;32]).unwrap(); let mut eta=1.; let n=i.geometry_shading.normal; let b=s.materials[m].sample_bsdf(d,&mut i,&mut eta,&mut rng).unwrap(); let w=b.spectrum.0[0]*(n*b.wi).abs()/b.pdf;
  let want=if b.wi.z>0. {1.} else {1./(1.5*1.5)}; assert!((w-want).abs()<1e-6,"{k} {w}"); } }
''', needs='light crossing a dielectric away from its normal', breaks='refracted light is weighted by the cosine of the wrong side'),
]
SEEDS=[s for s in SEEDS if s['main']]
