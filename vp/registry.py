import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BOX = 'states |x|<=2, right-hand side values |f|<=4, t in [-2,2], dt in [-1,1]'
PROPS = {}


def prop(pid, groups, **kw):
    PROPS[pid] = dict(groups=groups, **kw)



RK_B = 'state sizes 1-3 (vector) and 2 (array); up to two consecutive steps; ' + BOX
prop('C01', [dict(src='c01_rk.cpp')], bounds=RK_B)
prop('C02', [dict(src='c02_err.cpp')], bounds=RK_B)
prop('C03', [dict(src='c03_calls.cpp')], bounds='two-component states (one-component for multistep), one step of every form (multistep: up to 9 consecutive steps); ' + BOX)
prop('C04', [dict(src='c04_fsal.cpp')], bounds='every sequence of 3 (thorough: 4; Verlet 4 / 5) operations out of step / step with error / step with given derivative / reset / the two initialisations, one-component states; size changes 1 -> 2; ' + BOX)
prop('C05', [dict(src='c05_symplectic.cpp')], bounds='one to three degrees of freedom, two consecutive steps, in and out of place; ' + BOX)
prop('C06', [dict(src='c06_adams.cpp')], bounds='step counts 1-8, up to step count + 2 consecutive steps; every sequence of 3-4 (thorough 5) steps / resets / initialisations for 1-3 (4) step methods; one- and two-component states; ' + BOX)
prop('C07', [dict(src='c07_adaptive_adams.cpp')], bounds='orders 1-5 (thorough 8), up to 7 (10) steps whose sizes are a symbolic unit times any sequence of ratios from {1, 1/2, 2} (length-dependent choice), then a reset and two steps; one- and two-component states; ' + BOX)
prop('C08', [dict(src='c08_implicit.cpp', defs=['-DBOOST_UBLAS_NDEBUG'])], bounds='one dimension with arbitrary Jacobian function, two dimensions with four Jacobians (two of them needing pivoting), the second step with another one than the first and three step sizes; arbitrary right-hand sides and time derivatives; two steps; implicit Euler: affine systems, and up to four Newton evaluations of arbitrary systems; ' + BOX)
prop('C09', [dict(src='c09_extrapolation.cpp')], opts=dict(time=170), bounds='orders 4, 6, 8, 10; one and two components; one or two steps; Bulirsch-Stoer: |dt| = 1/2; ' + BOX)
prop('C10', [dict(src='c10_controlled.cpp'), dict(src='c10_implicit.cpp', defs=['-DBOOST_UBLAS_NDEBUG', '-DBOOST_MATH_PROMOTE_DOUBLE_POLICY=false'])], bounds='one- and two-component states, one or two attempts (thorough: three) of every call form; |dt| in [1/8,1]; ' + BOX)
prop('C11', [dict(src='c11_adjust.cpp', defs=['-DBOOST_UBLAS_NDEBUG'])], bounds='errors up to 1e6, |dt| in [2^-10,4], limits of either sign (that of dt) or none, orders 1-8; error weights: up to two components, tolerances in [2^-10,1] and [0,1], factors in [0,4]; Rosenbrock norm: up to three components; ' + BOX)
prop('C13', [dict(src='c13_const.cpp')], bounds='up to 4 grid intervals (thorough 12), up to 5 attempts (thorough 7) with at most two consecutive rejections, symbolic proposals in [1/4,2], either direction, interval an exact multiple of dt or not; ' + BOX)
prop('C14', [dict(src='c14_adaptive.cpp')], bounds='up to 6 attempts (thorough 8) with at most two consecutive rejections, symbolic proposals in [1/4,2], interval lengths 0 or [1/128,2], either direction; plain steppers up to 4 (12) whole steps with or without a rest; ' + BOX)
prop('C15', [dict(src='c15_nsteps.cpp')], bounds='n = 0..4 (thorough 12 for plain steppers), up to 6 attempts (8) with at most two consecutive rejections, symbolic proposals in [1/4,2], either direction; ' + BOX)
prop('C16', [dict(src='c16_times.cpp')], opts=dict(max_paths=8000, time=150), bounds='0-4 (thorough 5) monotone times with repetitions and distances in [1/32,1], up to 5 attempts (7) with at most two consecutive rejections, symbolic proposals in [1/4,2], either direction; ' + BOX)
prop('C17', [dict(src='c17_iter.cpp')], opts=dict(max_paths=6000, time=150), bounds='all eight iterator kinds, six ways of making and walking them; up to 3 grid intervals or times, up to 6 attempts (thorough 7) with at most two consecutive rejections, symbolic proposals, either direction; ' + BOX)
prop('C12', [dict(src='c12_dense.cpp', defs=['-DBOOST_UBLAS_NDEBUG', '-DBOOST_MATH_PROMOTE_DOUBLE_POLICY=false'])], bounds='up to three steps (thorough four) with re-initialisation at any point and up to two rejections per step; |dt| in {1/8,1/4,1/2,1} of either sign (Euler: any), any interpolation time; Bulirsch-Stoer: arbitrary right-hand sides at the ends and the centre of the step, polynomials up to degree 6 everywhere; ' + BOX)
prop('C18', [dict(src='c18_guards.cpp', defs=['-DBOOST_UBLAS_NDEBUG'])], opts=dict(max_paths=8000, time=150), bounds='checkers with limits 0-3, two grid intervals or three times, up to 5 attempts (plain steppers 9 steps), at most one consecutive rejection, symbolic proposals, either direction; built-in limits: 0, about half the limit, just below, just above and three times the limit of rejections before every one of three steps; ' + BOX)
prop('C19', [dict(src='c19_algebra.cpp')], bounds='arities 1-15; containers of 0-6 elements; elements and factors in [-2,2], tolerances in [2^-7,1]; ' + BOX)
prop('C20', [dict(src='c20_resize.cpp', defs=['-DBOOST_UBLAS_NDEBUG', '-DBOOST_MATH_PROMOTE_DOUBLE_POLICY=false'])], bounds='state sizes 1-3, two or three changes of size, every call form; ' + BOX)
prop('C21', [dict(src='c21_copy.cpp', defs=['-DBOOST_UBLAS_NDEBUG', '-DBOOST_MATH_PROMOTE_DOUBLE_POLICY=false'])], bounds='copies by construction, assignment (to an object with up to two steps of its own) and move after 0-4 steps, then two steps of both with the original alive or destroyed; two-component states, every call form; ' + BOX)
prop('C23', [dict(src='c23_less.cpp')], bounds='times in [-2,2], distances up to 4 and, separately, up to four times the machine epsilon, steps of magnitude [2^-10,4] of either sign; double, float and int times')
prop('C24', [dict(src='c24_factories.cpp', defs=['-DBOOST_UBLAS_NDEBUG', '-DBOOST_MATH_PROMOTE_DOUBLE_POLICY=false'])], bounds='one-component states, one or two attempts or steps, tolerances in [2^-10,1], limits in [1/4,1] of either sign or none, dense output steps with at most one or two rejections; ' + BOX)
prop('C25', [dict(src='c25_external.cpp', defs=['-DVP_EIGEN', '-I/usr/include/eigen3']), dict(src='c25_external.cpp', defs=['-DVP_UBLAS', '-DBOOST_UBLAS_NDEBUG']), dict(src='c25_external.cpp', defs=['-DVP_GSL'])],
     bounds='states of two elements (matrices four), two steps in place and one out of place, one attempt with real error control; ' + BOX)
prop('C22', [dict(src='c22_openmp.cpp', defs=['-fopenmp'])], bounds='teams of 1-3 threads; every assignment of the loop iterations to threads (steppers: in turns and all to one thread); containers of 0-3 elements, states of 0-3 parts with 0-2 elements; ' + BOX)
prop('C26', [dict(src='c26_mpi.cpp', defs=['-I' + ROOT + '/harness/mpi'])], bounds='1-3 nodes with 0-2 elements each, in the world or in a communicator of a part of it; two to three steps, one attempt; ' + BOX)
prop('C27', [dict(src='c27_units.cpp')], bounds='states of two quantities, every call form once, two steps of error, multistep, symplectic and Verlet steppers, one attempt with real error control, integrations and iterators over up to four steps; ' + BOX)
prop('C29', [dict(src='c29_shapes.cpp', defs=['-DBOOST_UBLAS_NDEBUG']), dict(src='c29_shapes.cpp', defs=['-DBOOST_UBLAS_NDEBUG', '-DVP_EIGEN', '-I/usr/include/eigen3'])], bounds='containers of up to four elements in one to three dimensions, all pairs of shapes; two steps of different shapes; ' + BOX)
prop('C30', [dict(src='c30_calls.cpp')], bounds='integrations of up to four steps in either direction with every integrate function, one argument varied at a time; ' + BOX)
prop('C28', [dict(src='c28_except.cpp', defs=['-DBOOST_UBLAS_NDEBUG', '-DBOOST_MATH_PROMOTE_DOUBLE_POLICY=false'])], bounds='an exception at any evaluation, allocation or observation of one operation, after up to three operations without, with and without a change of size; states of one or two elements; integrations of up to four steps; ' + BOX)
prop('C31', [dict(src='c31_together.cpp', defs=['-DBOOST_UBLAS_NDEBUG', '-DBOOST_MATH_PROMOTE_DOUBLE_POLICY=false'])], bounds='two steppers, integrations or iterators; up to five steps each in turns; the other one working inside any evaluation of one step (after up to three) or one of three observations; states of one or two elements; ' + BOX)
prop('C32', [dict(src='c32_values.cpp', defs=['-mlong-double-64', '-DBOOST_UBLAS_NDEBUG', '-DBOOST_MATH_PROMOTE_DOUBLE_POLICY=false'])], bounds='states of one or two elements; one step (multistep up to four, attempts and dense steps two); real error control with one tolerance; for float fixed times and step size; ' + BOX)
prop('C33', [dict(src='c33_mirror.cpp', defs=['-DBOOST_UBLAS_NDEBUG', '-DBOOST_MATH_PROMOTE_DOUBLE_POLICY=false'])], bounds='one to four steps, one or two attempts with real error control at one tolerance and step size, integrations and iterations over up to four steps; ' + BOX)
prop('C34', [dict(src='c13_const.cpp', defs=['-DVP_ITER']), dict(src='c14_adaptive.cpp', defs=['-DVP_ITER']), dict(src='c15_nsteps.cpp', defs=['-DVP_ITER']), dict(src='c16_times.cpp', defs=['-DVP_ITER'])], opts=dict(max_paths=8000, time=150), bounds='those of C13, C14, C15 and C16; '+BOX)
prop('C35', [dict(src='c35_rounding.cpp'), dict(src='c35_rounding.cpp', defs=['-DVP_ITER'])], bounds='integrations of four and six steps with any start in [-4,4] and any step of 1/4 to 1 in either direction, every operation on times committing any error of up to 2^-19')
