TR='explicit enumeration on the real code (sequential and parallel builds) against a naive reference'
PROPS = [
dict(id='A01', title='Dense matrix operations compute exactly the algebra, for every shape',
 statement='Sums, differences, products, scalings, element updates, row concatenation and constructors of dense matrices give exactly the mathematical result for every shape, with and without parallelism, and never depend on what the destination held before. Operands or destinations whose sizes do not match are refused (an error, or a panic for the operator forms) and leave the destination untouched.',
 over=['inputs','histories','configurations'], quant='all shapes, all values, all element-operation sequences, whatever the destination contains, both the sequential and the parallel build',
 why='Tests multiply a few fixed matrices; index arithmetic must be right for every row/column/inner size and stale destination.',
 files=['matrix/src/generic_matrix.rs'], mech=[('in-place results','add_into, sub_into, scale_into, prod_into'),('operators','std::ops impls'),('element access','get/set/add_to_element/scale_element')], observe='public API of the matrix crate',
 technique='explicit-state enumeration of all shape pairs, all unit-matrix pairs (which determine a bilinear product), all 2x2 matrices over a 3-value alphabet and all 3-operation element histories on the real code against a naive model',
 note='shapes up to 4x4 complete (5 thorough) plus all triples of 12 larger sizes up to 65; values are small integers so equality is exact'),
dict(id='A02', title='Banded matrices behave as dense ones with zeros off the band',
 statement='A compact n-diagonal matrix of any shape starts with the given value on its band, reads zero off the band, refuses writes off the band or out of range, and a write changes only that element. Products of banded matrices with a column or a matrix equal the dense product ignoring off-band elements, whatever the destination held before, and mismatching sizes are errors.',
 over=['inputs','configurations'], quant='all odd band widths (also wider than the matrix), all shapes (also non-square), all elements',
 why='No test checks compact matrices element by element; the packed index depends on top and bottom padding.',
 files=['matrix/src/n_diag_generic_matrix.rs','matrix/src/generic_matrix.rs'], mech=[('packed index','NDiagGenericMatrix::index, n_in_row'),('products','column_prod_into, prod_n_diag_into')], observe='public API of the matrix crate',
 technique='explicit-state enumeration of every shape, band width, element and unit column of the real code against a dense model', note='N in 1,3,5,7; all shapes up to 16x16 (40 thorough)'),
dict(id='A03', title='Linear solvers return a solution or an error, never a wrong answer',
 statement='Banded Gaussian elimination (dense and compact, one or several right-hand sides) and Gauss-Seidel iteration, whenever they report success, return a vector that satisfies the system to rounding or requested tolerance. Elimination succeeds whenever no pivot vanishes and reports an error when one does; Gauss-Seidel converges for strictly diagonally dominant systems from any starting point; mismatching sizes are errors.',
 over=['inputs'], quant='all systems: every small integer matrix, every band width, every size and starting point',
 why='The tests solve a few fixed systems; correctness depends on band limits, size, pivot pattern and starting vector.',
 files=['matrix/src/matrix.rs','matrix/src/n_diag_matrix.rs'], mech=[('elimination and back substitution','mut_n_diag_gaussian'),('iteration','gauss_seidel'),('compact form','mut_gaussian')], observe='public API of the matrix crate',
 technique='explicit enumeration of all 2x2/3x3/tridiagonal 4x4 systems over small alphabets and banded systems of every size on the real code; verdict by residual', note='3x3 over 3 values (5 thorough), all tridiagonal 4x4 over 3 values, dominant systems up to 40 (120) unknowns'),
]
