# Source of properties.jsonl and of the "checks" of MANIFEST.json (tools/gen.py writes both).
I = 'boost/numeric/odeint/'
def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                anchors=dict(files=['include/boost/numeric/odeint/' + f for f in files],
                             state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                             mechanism=[dict(name=a, where='include/boost/numeric/odeint/' + b) for a, b in mech],
                             observe_at=list(observe), hook_needed=None))
ALL = [
P('C01', 'Explicit Runge-Kutta steps realise the published method',
  'For every right-hand side, state, time and step size (of either sign), one step of each explicit Runge-Kutta stepper (Euler, RK4 and its classic form, Cash-Karp 54 and its classic form, Dormand-Prince 5, Fehlberg 78, modified midpoint, and the user-tableau steppers) returns the state given by the Butcher tableau the method is named after, each stage derivative being evaluated at that tableau\'s stage state and stage time. '
  'A stepper object gives the same result on its next step as a fresh one would, and an out-of-place step leaves its input state untouched.',
  ['inputs', 'configurations'], 'all right-hand sides (as an arbitrary function of state and time), states, times and step sizes; every explicit stepper; vectors and arrays',
  'the tests integrate one or two right-hand sides (constant, linear, autonomous) and compare end values to a loose tolerance; a wrong stage time, a swapped coefficient that keeps the order on an autonomous problem, or a stale buffer passes',
  ['stepper/euler.hpp', 'stepper/runge_kutta4.hpp', 'stepper/runge_kutta4_classic.hpp', 'stepper/runge_kutta_cash_karp54.hpp', 'stepper/runge_kutta_cash_karp54_classic.hpp', 'stepper/runge_kutta_dopri5.hpp', 'stepper/runge_kutta_fehlberg78.hpp', 'stepper/modified_midpoint.hpp', 'stepper/explicit_generic_rk.hpp', 'stepper/detail/generic_rk_algorithm.hpp', 'algebra/default_operations.hpp'],
  [('coefficient tables and stage loop', 'stepper/detail/generic_rk_algorithm.hpp'), ('hand-written stages', 'stepper/runge_kutta_dopri5.hpp')]),
P('C02', 'Embedded error estimates are the difference of the embedded solutions',
  'For every right-hand side, state, time and step size, the error estimate an error stepper (Cash-Karp 54, its classic form, Dormand-Prince 5, Fehlberg 78, user-tableau error steppers) delivers equals step size times the difference of the two embedded solutions of the published pair, whichever way the step is called and whether or not input and output share storage. '
  'A stepper that hands on its last derivative hands on the right-hand side at the new state and new time. The orders a stepper reports are those of its published pair.',
  ['inputs', 'configurations'], 'all right-hand sides, states, times, step sizes; all call forms with an error argument',
  'tests check that the estimate is small or matches for one function; a wrong error weight only changes step acceptance, so end results still converge',
  ['stepper/runge_kutta_cash_karp54.hpp', 'stepper/runge_kutta_cash_karp54_classic.hpp', 'stepper/runge_kutta_dopri5.hpp', 'stepper/runge_kutta_fehlberg78.hpp', 'stepper/explicit_error_generic_rk.hpp', 'stepper/base/explicit_error_stepper_base.hpp', 'stepper/base/explicit_error_stepper_fsal_base.hpp'],
  [('error weights dc_i and final scale_sum', 'stepper/runge_kutta_dopri5.hpp'), ('error overloads', 'stepper/base/explicit_error_stepper_base.hpp')]),
P('C03', 'Every way of calling a step gives the same step',
  'For every stepper family, in-place and out-of-place calls, calls with and without a supplied derivative, calls where output and input are the same object, calls with and without an error argument, systems passed by value or wrapped in a reference wrapper, and states passed as containers or ranges all produce the same new state for the same right-hand side, state, time and step size. '
  'A step evaluates the right-hand side of the caller\'s own system object when that object is passed by reference wrapper, not a copy of it.',
  ['inputs', 'configurations'], 'all right-hand sides, states, times, step sizes; all public step overloads',
  'overloads are exercised one value at a time, aliasing of input and output mostly not at all',
  ['stepper/base/explicit_stepper_base.hpp', 'stepper/base/explicit_error_stepper_base.hpp', 'stepper/base/explicit_error_stepper_fsal_base.hpp', 'stepper/base/symplectic_rkn_stepper_base.hpp', 'stepper/extrapolation_stepper.hpp', 'stepper/velocity_verlet.hpp', 'stepper/adams_bashforth.hpp', 'util/unwrap_reference.hpp'],
  [('do_step overload dispatch', 'stepper/base/explicit_stepper_base.hpp'), ('explicit_error_stepper_base overloads', 'stepper/base/explicit_error_stepper_base.hpp')]),
P('C04', 'Cached derivatives of stateful steppers are never stale',
  'A stepper that keeps the derivative (or acceleration) between steps uses, in every step of a sequence of uninterrupted steps, the right-hand side at the state and time the step starts from, at one evaluation less than recomputing it. '
  'After a reset, or after an explicit initialisation with a derivative or with a state and time, the next step uses exactly that derivative (or recomputes it), and steps given a derivative by the caller use the caller\'s. The initialised-flag reported to the user agrees with whether a cached value will be used.',
  ['histories', 'inputs'], 'all sequences (bounded length) of step, reset and initialise calls of every form, all right-hand sides',
  'tests call one or two fixed sequences; a stale or missing cache after a particular order of calls changes results only slightly',
  ['stepper/base/explicit_error_stepper_fsal_base.hpp', 'stepper/runge_kutta_dopri5.hpp', 'stepper/velocity_verlet.hpp'],
  [('m_first_call / m_dxdt', 'stepper/base/explicit_error_stepper_fsal_base.hpp'), ('m_first_call / m_current_a1', 'stepper/velocity_verlet.hpp')],
  [('m_first_call', 'no cached derivative yet', 'explicit_error_stepper_fsal_base')]),
P('C05', 'Symplectic and Verlet steps realise their published schemes',
  'For every pair of coordinate and momentum functions, state and step size, a step of symplectic Euler, of the McLachlan order-4 and order-6 Runge-Kutta-Nystroem methods and of velocity Verlet is the published alternating sequence of kicks and drifts, in place or out of place, for plain momentum functions as well as coordinate/momentum pairs. '
  'For the palindromic schemes a step followed by the step with the opposite step size returns to the starting state.',
  ['inputs', 'configurations'], 'all force and velocity functions, states, step sizes; all call forms',
  'tests integrate the harmonic oscillator with a tolerance; a wrong coefficient or a swapped order on one call form still conserves energy approximately',
  ['stepper/base/symplectic_rkn_stepper_base.hpp', 'stepper/symplectic_euler.hpp', 'stepper/symplectic_rkn_sb3a_mclachlan.hpp', 'stepper/symplectic_rkn_sb3a_m4_mclachlan.hpp', 'stepper/velocity_verlet.hpp'],
  [('do_step_impl stage loop', 'stepper/base/symplectic_rkn_stepper_base.hpp'), ('coefficient tables', 'stepper/symplectic_rkn_sb3a_mclachlan.hpp')]),
P('C06', 'Multistep steppers realise Adams formulas over the true history',
  'Once enough history is available, each step of the Adams-Bashforth, Adams-Moulton and Adams-Bashforth-Moulton steppers equals the published formula of its number of steps applied to the derivatives of the preceding steps in order, the corrector being evaluated at the new time; the steps before that, and those after a reset, are made by the starting stepper while collecting history, and an explicit initialisation advances state and time by exactly the steps it takes. '
  'Every call form (in or out of place) gives the same step and records the same history.',
  ['histories', 'inputs', 'configurations'], 'all right-hand sides, states, times, step sizes; step counts 1-8; sequences with reset and initialise',
  'tests compare one linear or constant problem, where most coefficient and rotation errors cancel or stay below tolerance',
  ['stepper/adams_bashforth.hpp', 'stepper/adams_moulton.hpp', 'stepper/adams_bashforth_moulton.hpp', 'stepper/detail/adams_bashforth_coefficients.hpp', 'stepper/detail/adams_moulton_coefficients.hpp', 'stepper/detail/adams_bashforth_call_algebra.hpp', 'stepper/detail/adams_moulton_call_algebra.hpp', 'stepper/detail/rotating_buffer.hpp'],
  [('coefficients', 'stepper/detail/adams_bashforth_coefficients.hpp'), ('history rotation', 'stepper/detail/rotating_buffer.hpp')]),
P('C07', 'The adaptive-order Adams stepper is exact on its polynomial order',
  'With any sequence of positive step sizes, the variable-coefficient Adams-Bashforth-Moulton stepper of a given order reproduces, step by step, the predictor/corrector of that order on the actual (non-uniform) time grid, and its error estimates are the differences of the neighbouring orders. '
  'A reset makes the next step the same as the first step of a fresh stepper.',
  ['histories', 'inputs'], 'all right-hand sides, all step-size sequences within bounds, reset',
  'tests use a uniform grid and one function',
  ['stepper/adaptive_adams_bashforth_moulton.hpp', 'stepper/detail/adaptive_adams_coefficients.hpp', 'stepper/detail/pid_step_adjuster.hpp', 'stepper/controlled_adams_bashforth_moulton.hpp'],
  [('predict/do_step/confirm', 'stepper/detail/adaptive_adams_coefficients.hpp')]),
P('C08', 'Implicit steppers solve their defining equations',
  'For every linear system with a non-singular iteration matrix, a Rosenbrock-4 step and its error estimate are those of the published method, and an implicit Euler step satisfies x1 = x0 + dt f(x1); the Jacobian and time derivative the caller supplies are evaluated at the state and time of the step. '
  'The input of an out-of-place step is left untouched and the next step does not depend on the previous one.',
  ['inputs'], 'all linear/affine right-hand sides with bounded coefficients, states, times, step sizes; small dimensions',
  'tests use one stiff example with a tolerance on the end value',
  ['stepper/implicit_euler.hpp', 'stepper/rosenbrock4.hpp', 'util/ublas_wrapper.hpp'],
  [('stages and LU solve', 'stepper/rosenbrock4.hpp'), ('Newton iteration', 'stepper/implicit_euler.hpp')]),
P('C09', 'Extrapolation steppers extrapolate the modified midpoint rule',
  'A step of the fixed-order extrapolation stepper equals the Richardson (Aitken-Neville in powers of h^2) extrapolation of modified-midpoint results over its step-count sequence, with the error estimate the difference of the last two columns; an accepted Bulirsch-Stoer step returns such an extrapolated value of the order it selected, starting at the state and time of the call. '
  'Results do not depend on whether the step is done in place or on previous steps.',
  ['inputs', 'configurations'], 'all right-hand sides, states, times, step sizes; orders 4-8',
  'tests check convergence order on one problem',
  ['stepper/extrapolation_stepper.hpp', 'stepper/bulirsch_stoer.hpp', 'stepper/modified_midpoint.hpp'],
  [('extrapolate', 'stepper/extrapolation_stepper.hpp'), ('try_step', 'stepper/bulirsch_stoer.hpp')]),
P('C10', 'A controlled step either advances exactly one accepted step or changes nothing',
  'An attempted step of any controlled stepper that reports failure leaves the state, time and carried derivative as they were (also in out-of-place form) and proposes a step size of strictly smaller magnitude and the same sign; one that reports success advances time by exactly the step size given and delivers the underlying stepper\'s step of that size. '
  'For the one-step controllers acceptance depends only on the weighted error of that step being at most one; for all of them a rejected attempt does not influence what a later attempt computes, and a step size beyond the configured maximum is refused and cut to it.',
  ['inputs', 'histories'], 'all right-hand sides, states, times, step sizes and tolerances (bounded); sequences of two attempts; every controlled stepper and call form',
  'rejection happens rarely in the tests and never checked for leftovers in state, time and the cached derivative',
  ['stepper/controlled_runge_kutta.hpp', 'stepper/rosenbrock4_controller.hpp', 'stepper/bulirsch_stoer.hpp', 'stepper/controlled_adams_bashforth_moulton.hpp'],
  [('try_step', 'stepper/controlled_runge_kutta.hpp')]),
P('C11', 'Step-size adjustment stays within its documented factors and limits',
  'For every error value and orders, the default step adjuster shrinks a rejected step to 9/10 * err^(-1/(error_order-1)) of its size but not below a fifth, grows an accepted one only when the error is below one half, to at most five times, keeps its sign, and never returns a step of larger magnitude than the configured maximum (zero meaning none). '
  'The default error of a step is the maximum over components of |err| / (eps_abs + eps_rel * (a_x |x| + a_dxdt |dt| |dxdt|)).',
  ['inputs', 'configurations'], 'all error values, step sizes of either sign, limits and orders; all states, derivatives and tolerance parameters',
  'tests sample a few values; negative steps with a limit, and the exact weights, are not reached',
  ['stepper/controlled_runge_kutta.hpp', 'stepper/detail/pid_step_adjuster.hpp', 'algebra/default_operations.hpp', 'util/detail/less_with_sign.hpp'],
  [('default_step_adjuster', 'stepper/controlled_runge_kutta.hpp'), ('default_error_checker', 'stepper/controlled_runge_kutta.hpp'), ('rel_error', 'algebra/default_operations.hpp')]),
P('C12', 'Dense output is continuous, exact at the ends and keeps its bookkeeping',
  'After every step a dense-output stepper spans the interval [previous time, current time], whose previous end is the former current end; the current state is what the underlying stepper produces for the accepted step, and interpolation inside is the method\'s published interpolant: linear for Euler, the fourth-order continuous extension for Dormand-Prince 5 and the RODAS interpolant for Rosenbrock 4 (all three returning the previous and current state at the ends), and for Bulirsch-Stoer the polynomial about the centre of the step, which reproduces polynomial solutions. '
  'Initialising discards all earlier steps, so that a stepper used before continues like a fresh one; the current step size reported is the one the next step will try; attempts are repeated until one is accepted.',
  ['histories', 'inputs'], 'all right-hand sides, start states, times, step sizes; up to three steps, re-initialisation between; all interpolation times in the interval',
  'tests interpolate at a few points with a tolerance, mostly on the first step of a smooth problem',
  ['stepper/dense_output_runge_kutta.hpp', 'stepper/runge_kutta_dopri5.hpp', 'stepper/rosenbrock4_dense_output.hpp', 'stepper/bulirsch_stoer_dense_out.hpp', 'stepper/euler.hpp'],
  [('toggle_current_state', 'stepper/dense_output_runge_kutta.hpp'), ('calc_state', 'stepper/runge_kutta_dopri5.hpp'), ('interpolation coefficients', 'stepper/bulirsch_stoer_dense_out.hpp')]),
P('C13', 'Constant-step integration observes the grid t0 + n*dt and nothing else',
  'integrate_const calls the observer first with the initial state at the start time and then once at every t0 + n*dt up to the end time (never beyond it), for either direction of time, and with plain, controlled and dense-output steppers; it returns the number of steps made. '
  'With a plain stepper the observed states are the stepper\'s states after n steps of size dt; with a controlled stepper each interval is covered exactly; with a dense-output stepper they are interpolated. The state argument ends as the last observed state.',
  ['inputs', 'histories', 'configurations'], 'all start times, end times, step sizes of either sign (bounded step count), right-hand sides, accept/reject schedules of the controller',
  'tests use a handful of round numbers in forward time',
  ['integrate/integrate_const.hpp', 'integrate/detail/integrate_const.hpp', 'util/detail/less_with_sign.hpp'],
  [('time grid loops', 'integrate/detail/integrate_const.hpp')]),
P('C14', 'Adaptive integration ends exactly at the end time, observing every accepted step',
  'integrate_adaptive (and integrate) reaches the end time exactly and not beyond, in either direction, calls the observer with the initial state, then after every accepted step with strictly monotone times and finally at the end time, each observed state being the one the stepper holds at that time; it returns the number of steps. '
  'With a plain stepper it makes whole steps of the given size and one shortened last step; with a controlled stepper it never tries a step beyond the end; rejected steps are never observed.',
  ['inputs', 'histories', 'fault_sequences'], 'all start/end times and initial step sizes of either sign, all accept/reject schedules and proposed step sizes within bounds',
  'rejection patterns around the end time and backward integration are sampled at one point at most',
  ['integrate/integrate_adaptive.hpp', 'integrate/integrate.hpp', 'integrate/detail/integrate_adaptive.hpp'],
  [('end-time clipping', 'integrate/detail/integrate_adaptive.hpp')]),
P('C15', 'integrate_n_steps makes n steps and observes n+1 states',
  'integrate_n_steps with n steps calls the observer exactly n+1 times, at start time + k*dt for k = 0..n with the state at that time, in either direction of time and for plain, controlled and dense-output steppers, and returns the time reached, start + n*dt. '
  'The state argument holds the final state afterwards.',
  ['inputs', 'configurations', 'histories'], 'all n (bounded), start times, step sizes of either sign, right-hand sides, controller schedules',
  'tests use forward time, and one or two n',
  ['integrate/integrate_n_steps.hpp', 'integrate/detail/integrate_n_steps.hpp'],
  [('step loops', 'integrate/detail/integrate_n_steps.hpp')]),
P('C16', 'integrate_times observes exactly the requested times',
  'integrate_times calls the observer once per requested time, in the order given and with exactly those times, the first with the initial state, in either direction, for plain, controlled and dense-output steppers and for iterators and ranges; the state observed at each is the solution continued to exactly that time, and the number of steps made is returned. '
  'Repeated times are observed repeatedly without advancing the state, and the step size tried never exceeds the distance to the next requested time with controlled steppers, where a step shortened only to meet a requested time does not shorten the steps after it.',
  ['inputs', 'histories', 'fault_sequences'], 'all monotone time lists up to a bounded length (repetitions included), step sizes, accept/reject schedules',
  'tests use equidistant lists in forward time; the interplay of rejection, shortened steps and repeated times is not reached',
  ['integrate/integrate_times.hpp', 'integrate/detail/integrate_times.hpp'],
  [('per-time inner loops', 'integrate/detail/integrate_times.hpp')]),
P('C17', 'Iterators yield the sequences the integrate functions observe',
  'Iterating a const-step, adaptive, n-step or times iterator (state-only or time-and-state form, as iterator pair or range, standard or factory-made) over an interval whose end is not before its start (in the direction of the step) visits exactly the times the corresponding integrate function passes to its observer, in the same order, and then compares equal to the end iterator; an empty list of times visits nothing. '
  'The states visited are those the integrate function observes for plain steppers and for adaptive iterators; on grids with dense-output or controlled steppers, where the steps may be divided differently, each is the stepper\'s solution continued or interpolated to exactly the visited time. Dereferencing does not advance.',
  ['inputs', 'histories', 'configurations'], 'all intervals and step sizes of either sign (bounded counts), right-hand sides, controller schedules',
  'tests walk a few fixed intervals with a trivial stepper',
  ['iterator/const_step_iterator.hpp', 'iterator/const_step_time_iterator.hpp', 'iterator/adaptive_iterator.hpp', 'iterator/adaptive_time_iterator.hpp', 'iterator/n_step_iterator.hpp', 'iterator/n_step_time_iterator.hpp', 'iterator/times_iterator.hpp', 'iterator/times_time_iterator.hpp', 'iterator/impl/const_step_iterator_impl.hpp', 'iterator/impl/adaptive_iterator_impl.hpp', 'iterator/impl/n_step_iterator_impl.hpp', 'iterator/impl/times_iterator_impl.hpp', 'iterator/detail/ode_iterator_base.hpp'],
  [('increment', 'iterator/impl/adaptive_iterator_impl.hpp')]),
P('C18', 'Runaway integrations are stopped by their guards, and only those',
  'With a step checker passed (together with an observer) to integrate_const, integrate_n_steps or integrate_times, integration throws no_progress_error at the first step beyond the configured number of consecutive accepted steps without an observer call in between, and never otherwise; passing a checker does not change the observed times, states or the result of integrations that finish, and the checkers count calls since their last reset. '
  'The built-in limit on attempts per step (500 in the integrate functions and dense-output steppers, 1000 in the iterators) ends a step that is rejected more often than that with an exception, and never one for which fewer attempts suffice, however many rejections other steps had, so no controller can loop forever.',
  ['fault_sequences', 'histories'], 'all accept/reject schedules up to the limits, all limits within bounds',
  'the limits are tested with one endless schedule; off-by-one and missing resets stay unseen',
  ['integrate/max_step_checker.hpp', 'integrate/check_adapter.hpp', 'integrate/detail/integrate_adaptive.hpp', 'integrate/detail/integrate_const.hpp', 'integrate/detail/integrate_times.hpp', 'util/odeint_error.hpp'],
  [('max_step_checker, failed_step_checker', 'integrate/max_step_checker.hpp'), ('checked stepper wrappers', 'integrate/check_adapter.hpp')]),
P('C19', 'All algebras compute the same element-wise operations',
  'For every state container supported by the standard algebras (ranges, fixed arrays, vector-space types, fusion sequences, multi-dimensional arrays) and for every arity, an element-wise operation is applied once to each element of the whole container, with the arguments in order, so that a step gives the same numbers whatever container holds the state; the maximum norm is the largest absolute element. '
  'The scaled-sum operations compute exactly the linear combination of their arguments with their factors in order.',
  ['inputs', 'configurations'], 'all element values and factors, container sizes within bounds, arities 1-15',
  'tests check single arities with distinct constants',
  ['algebra/range_algebra.hpp', 'algebra/array_algebra.hpp', 'algebra/vector_space_algebra.hpp', 'algebra/fusion_algebra.hpp', 'algebra/multi_array_algebra.hpp', 'algebra/detail/for_each.hpp', 'algebra/detail/norm_inf.hpp', 'algebra/default_operations.hpp', 'algebra/algebra_dispatcher.hpp'],
  [('for_eachN', 'algebra/detail/for_each.hpp'), ('scale_sumN', 'algebra/default_operations.hpp')]),
P('C20', 'Automatic resizing keeps steppers memory-safe for any state size',
  'With automatic resizing, a stepper of any family used with a state of any size reads and writes only initialised memory inside its containers, and with the always-resize policy it may be used with states of changing size; with the initial-resize policy buffers are sized by the first state; with manual resizing, calling the adjust-size function with a state prepares every internal buffer a following step of that size needs. '
  'Results never depend on the size used before.',
  ['histories', 'configurations', 'inputs'], 'all state sizes within bounds and sequences of sizes, all resize policies, all stepper families',
  'tests count resize calls of one stepper; undersized buffers read stale or foreign memory without failing',
  ['util/resizer.hpp', 'util/resize.hpp', 'util/same_size.hpp', 'util/is_resizeable.hpp', 'util/state_wrapper.hpp', 'stepper/base/explicit_stepper_base.hpp', 'stepper/controlled_runge_kutta.hpp', 'stepper/dense_output_runge_kutta.hpp', 'stepper/bulirsch_stoer.hpp'],
  [('adjust_size_by_resizeability', 'util/resizer.hpp')]),
P('C21', 'Copies of steppers are independent and equivalent',
  'A copy (by construction, or by assignment where the stepper type supports it) of any stepper, taken at any point of an integration, continues exactly as the original would and shares no mutable state with it: steps made with one never influence the other, and the copy stays usable after the original is destroyed.',
  ['histories', 'configurations'], 'all stepper families, copy or assignment at any point of a short step history, all right-hand sides',
  'tests copy a fresh or once-used stepper and compare a buffer; sharing through references or stale internal pointers goes unseen',
  ['stepper/dense_output_runge_kutta.hpp', 'stepper/adams_bashforth.hpp', 'stepper/adams_bashforth_moulton.hpp', 'stepper/adams_moulton.hpp', 'stepper/base/algebra_stepper_base.hpp', 'stepper/base/symplectic_rkn_stepper_base.hpp', 'stepper/detail/rotating_buffer.hpp', 'util/state_wrapper.hpp'],
  [('copy constructor and assignment with internal state pointers', 'stepper/dense_output_runge_kutta.hpp')]),
P('C22', 'Parallel (OpenMP) algebras compute what the sequential ones do',
  'The OpenMP range and nested algebras and the OpenMP split state give, for any number of threads, any container size and any assignment of the loop iterations to the threads, the same result of every element-wise operation, norm and step as the sequential algebra on the unsplit container, without data races; copying, resizing and comparing the sizes of split states acts on every part; splitting a container into any number of parts and joining it again returns the original elements in order, each part but the last having size/parts elements.',
  ['schedules', 'configurations', 'inputs'], 'all thread counts, iteration-to-thread assignments and container sizes within bounds, all element values',
  'the tests run one thread count on one size, and whatever interleaving happens',
  ['external/openmp/openmp_range_algebra.hpp', 'external/openmp/openmp_nested_algebra.hpp', 'external/openmp/openmp_state.hpp', 'util/split.hpp', 'util/split_adaptor.hpp'],
  [('parallel for loops', 'external/openmp/openmp_range_algebra.hpp'), ('split/unsplit', 'external/openmp/openmp_state.hpp')]),
P('C23', 'Time comparisons respect the direction of integration',
  'The comparison helpers decide order along the direction of the step: for a positive step they are the ordinary less / less-or-equal with a tolerance of the order of the time type\'s machine epsilon, for a negative step the reverse; exactly one of a < b and b <= a holds for any two times. The smaller/larger-magnitude helpers return, of two steps of the same sign, the one of smaller/larger magnitude.',
  ['inputs'], 'all finite times and non-zero steps', 'tests sample a handful of values',
  ['util/detail/less_with_sign.hpp'], [('less_with_sign family', 'util/detail/less_with_sign.hpp')]),
P('C24', 'Factory functions build the stepper they name with the parameters given',
  'A controlled or dense-output stepper obtained from a factory function behaves in every step exactly like the same stepper constructed directly with the given tolerances, maximum step and (where its constructor takes one) underlying stepper, with the absolute and relative tolerances not interchanged and defaults for the rest. A user-defined controller or dense output type receives the arguments in that order.',
  ['inputs', 'configurations'], 'all tolerances, maximum steps, right-hand sides, states; all factories', 'tests check types and one integration',
  ['stepper/generation/make_controlled.hpp', 'stepper/generation/make_dense_output.hpp', 'stepper/generation/generation_controlled_runge_kutta.hpp', 'stepper/generation/generation_dense_output_runge_kutta.hpp', 'stepper/generation/generation_rosenbrock4.hpp'],
  [('get_controller / get_dense_output', 'stepper/generation/generation_controlled_runge_kutta.hpp')]),
P('C25', 'External container adaptors preserve step results',
  'States held in Eigen vectors, matrices and arrays (arrays without error control), uBLAS vectors and matrices, or GSL vectors (contiguous or strided; without step-size control, which does not exist for them) give the same step, error estimate, accept / reject decision, next step size and interpolation as a plain vector with the same elements, for steppers used, reused, copied and assigned; resizing takes the shape of the other container, size comparison compares shapes, and memory is neither shared between copies nor freed twice.',
  ['inputs', 'configurations'], 'all element values, small sizes; each adaptor available here', 'tests run one problem per adaptor',
  ['external/eigen/eigen_algebra.hpp', 'external/eigen/eigen_resize.hpp', 'external/gsl/gsl_wrapper.hpp', 'util/ublas_wrapper.hpp'],
  [('norm_inf, abs', 'external/eigen/eigen_algebra.hpp'), ('state wrapper, resize, copy of gsl_vector*', 'external/gsl/gsl_wrapper.hpp'), ('norm_inf, resize of ublas containers', 'util/ublas_wrapper.hpp')]),
P('C26', 'Distributed (MPI) states behave like the whole state',
  'A state distributed over the nodes of any communicator gives on the nodes together, for any local sizes including empty ones, the same element-wise results, steps, accept / reject decisions and step sizes as the sequential stepper on the whole state; the norm and the size comparison are those of the whole state on every node; every collective operation is reached by all nodes of the communicator of the state and no others; splitting a container on the root gives the nodes consecutive parts of (up to one) equal size, and joining returns the elements in order to the root only.',
  ['inputs', 'configurations', 'schedules'], 'all element values and right-hand sides; all numbers of nodes and local sizes within bounds; world and partial communicators',
  'the tests run three nodes of the world communicator on one size',
  ['external/mpi/mpi_state.hpp', 'external/mpi/mpi_vector_state.hpp', 'external/mpi/mpi_nested_algebra.hpp', 'util/split_adaptor.hpp'],
  [('same_size / resize / copy of mpi_state', 'external/mpi/mpi_state.hpp'), ('split / unsplit', 'external/mpi/mpi_vector_state.hpp'), ('norm_inf', 'external/mpi/mpi_nested_algebra.hpp')]),
P('C27', 'Quantities with units integrate as their plain numbers',
  'States and times that carry physical units (Boost.Units quantities in fusion sequences with the fusion algebra) are integrated exactly like their numerical values: every step, error estimate, accept / reject decision, step size, observation and final time equals, number for number, that of the same stepper on plain doubles, including the tolerance that decides when an end time has been reached.',
  ['inputs', 'histories', 'configurations'], 'all state values, right-hand sides, step sizes and the number of steps within bounds',
  'the tests take single steps with a fixed system and integrate with units in no test that compares values',
  ['util/unit_helper.hpp', 'util/detail/less_with_sign.hpp', 'algebra/fusion_algebra.hpp', 'integrate/detail/integrate_adaptive.hpp', 'integrate/detail/integrate_const.hpp', 'integrate/detail/integrate_times.hpp', 'integrate/detail/integrate_n_steps.hpp', 'stepper/controlled_runge_kutta.hpp'],
  [('get_unit_value / set_unit_value', 'util/unit_helper.hpp'), ('less_with_sign / less_eq_with_sign', 'util/detail/less_with_sign.hpp'), ('for_each1..8, norm_inf', 'algebra/fusion_algebra.hpp')]),
P('C28', 'Exceptions leave steppers and integrations usable',
  'An exception thrown by the right-hand side (before or after it has written its output), by the observer or the step checker, or by an allocation that fails, reaches the caller unchanged, and nothing is leaked or corrupted. '
  'A step attempt of a controlled Runge-Kutta, Bulirsch-Stoer or Rosenbrock stepper and a step of a dense-output stepper that throws has not taken place: state, time and step size are as before, and repeating it gives exactly what it would have given without the exception; when an observer throws in an integration with a plain or controlled stepper, the state passed in is the observed one. '
  'A stepper of any family in which any operation or a whole integration has thrown works, after reset or initialisation where it keeps a history, like a new one, also on states of another size with automatic resizing.',
  ['fault_sequences', 'crash_points', 'histories', 'configurations'], 'a fault at every evaluation, allocation and observation of an operation, after histories within bounds, all steppers, all values',
  'no test throws from the right-hand side, an observer or an allocation',
  ['util/resizer.hpp', 'util/state_wrapper.hpp', 'stepper/base/explicit_stepper_base.hpp', 'stepper/base/explicit_error_stepper_fsal_base.hpp', 'stepper/controlled_runge_kutta.hpp', 'stepper/dense_output_runge_kutta.hpp', 'stepper/adams_bashforth.hpp', 'stepper/bulirsch_stoer.hpp', 'stepper/rosenbrock4_controller.hpp', 'integrate/detail/integrate_adaptive.hpp', 'integrate/detail/integrate_const.hpp', 'integrate/detail/integrate_times.hpp'],
  [('initially_resizer, always_resizer', 'util/resizer.hpp'), ('m_first_call', 'stepper/base/explicit_error_stepper_fsal_base.hpp'), ('controlled try_step', 'stepper/controlled_runge_kutta.hpp'), ('do_step', 'stepper/dense_output_runge_kutta.hpp')]),
P('C29', 'Containers keep their shape when compared, resized and copied',
  'For every supported container (standard sequences, Boost.MultiArray, Boost.uBLAS, fusion sequences of them) same_size holds if and only if the shapes, extents and index bases, are equal; resize gives the shape of the other container, copy its elements into memory of its own, and a buffer resized by a stepper reports truthfully whether its shape changed. '
  'same_instance holds only for a container and itself, and types of fixed size are never resized. '
  'A stepper with automatic resizing that has worked on a state of one shape gives on a state of another, including one of the same number of elements, exactly the result of a new stepper on a vector of these elements.',
  ['inputs', 'configurations', 'histories'], 'all pairs of shapes within bounds, all containers, all element values',
  'tests resize a few containers by one fixed shape each',
  ['util/resize.hpp', 'util/same_size.hpp', 'util/copy.hpp', 'util/same_instance.hpp', 'util/is_resizeable.hpp', 'util/state_wrapper.hpp', 'util/resizer.hpp', 'util/multi_array_adaption.hpp', 'util/ublas_wrapper.hpp'],
  [('resize_impl, same_size_impl of multi_array', 'util/multi_array_adaption.hpp'), ('adjust_size_by_resizeability', 'util/resizer.hpp')]),
P('C30', 'Every way of calling an integrate function means the same integration',
  'For every integrate function (const, adaptive, n steps, times as iterators or range, and integrate with its default stepper) the observations, the final state and the result do not depend on whether stepper, system, observer and step checker are given by value or by boost::ref or std::ref, whether system and observer are functions, function objects or lambdas, whether the state is a variable or a temporary range, or whether observations go to one observer or to a collection of them. '
  'What is given by reference is used itself, what is given by value is copied and left alone; a collection calls each of its observers once per observation in their order; leaving out the observer or adding a checker that does not strike changes nothing. '
  'A state given as a range changes nothing outside the range.',
  ['inputs', 'configurations'], 'all states, times, step sizes of either sign and right-hand sides, every combination of integrate function, stepper category and calling form',
  'tests use each overload with one problem and do not compare them',
  ['integrate/integrate.hpp', 'integrate/integrate_const.hpp', 'integrate/integrate_adaptive.hpp', 'integrate/integrate_n_steps.hpp', 'integrate/integrate_times.hpp', 'integrate/observer_collection.hpp', 'integrate/null_observer.hpp', 'integrate/check_adapter.hpp', 'util/unwrap_reference.hpp'],
  [('overloads', 'integrate/integrate_adaptive.hpp'), ('observer_collection', 'integrate/observer_collection.hpp'), ('unwrap_reference', 'util/unwrap_reference.hpp')]),
P('C31', 'Steppers, integrations and iterators do not influence each other',
  'Two steppers of one type, of any family, working in turns, or one of them making a step inside a right-hand-side evaluation of the other, each give exactly what they give alone, also on states of different sizes: nothing is shared between objects, neither work space nor history. '
  'The same holds for two integrations of which one runs inside the observer or the right-hand side of the other, whatever integrate functions they use, and for two iterators of one type advanced in turns.',
  ['histories', 'schedules', 'configurations'], 'all interleavings at the granularity of evaluations, observations and steps within bounds, all families, all values',
  'tests use one stepper at a time',
  ['stepper/runge_kutta4_classic.hpp', 'stepper/detail/generic_rk_algorithm.hpp', 'stepper/base/explicit_stepper_base.hpp', 'stepper/base/algebra_stepper_base.hpp', 'stepper/controlled_runge_kutta.hpp', 'stepper/dense_output_runge_kutta.hpp', 'stepper/bulirsch_stoer.hpp', 'stepper/rosenbrock4.hpp', 'stepper/adams_bashforth.hpp', 'stepper/adaptive_adams_bashforth_moulton.hpp', 'integrate/detail/integrate_adaptive.hpp', 'iterator/detail/ode_iterator_base.hpp'],
  [('buffers of the steppers', 'util/state_wrapper.hpp'), ('generic RK stages', 'stepper/detail/generic_rk_algorithm.hpp')]),
P('C32', 'The element type of a state does not change what a stepper does',
  'Steps, error estimates, attempts, dense output and integrations with states whose elements are complex, single- or extended-precision, or user-defined vector-space values give component by component the result for the vector of doubles of all components, within the precision of the type; so do a single complex or vector-space value as the whole state. '
  'The error control of complex states compares the modulus of each element\'s error with the tolerance weighted by the moduli of the element of the state and of the derivative: a step is accepted if and only if the largest ratio is at most one.',
  ['inputs', 'configurations'], 'all states, times, step sizes, tolerances and right-hand sides within bounds, nine element and container types times the stepper families',
  'tests use complex and user-defined states with a few fixed problems',
  ['algebra/default_operations.hpp', 'algebra/range_algebra.hpp', 'algebra/array_algebra.hpp', 'algebra/vector_space_algebra.hpp', 'algebra/norm_result_type.hpp', 'algebra/detail/norm_inf.hpp', 'algebra/algebra_dispatcher.hpp', 'stepper/controlled_runge_kutta.hpp', 'util/unit_helper.hpp'],
  [('rel_error', 'algebra/default_operations.hpp'), ('norm_inf', 'algebra/detail/norm_inf.hpp'), ('value types in the steppers', 'stepper/runge_kutta_dopri5.hpp')]),
P('C33', 'The direction of time is immaterial',
  "Integrating x' = f(x,t) backwards in time is the mirror image of integrating y' = -f(y,-s) forwards in s = -t: steps, error estimates, decisions about attempts, proposed step sizes, orders chosen, dense output and everything observed by integrate functions and iterators are the same, with times and step sizes negated. "
  'This holds for every stepper, plain, controlled, with dense output or with history, and no method does more work in one direction than in the other.',
  ['inputs', 'histories', 'configurations'], 'all states, times, step sizes and right-hand sides within bounds, every stepper family, attempts accepted and rejected, integrate functions and iterators',
  'tests integrate backwards in a handful of cases and compare with nothing',
  ['stepper/bulirsch_stoer.hpp', 'stepper/bulirsch_stoer_dense_out.hpp', 'stepper/controlled_runge_kutta.hpp', 'stepper/rosenbrock4_controller.hpp', 'stepper/dense_output_runge_kutta.hpp', 'stepper/rosenbrock4_dense_output.hpp', 'stepper/controlled_adams_bashforth_moulton.hpp', 'stepper/adams_bashforth_moulton.hpp', 'stepper/symplectic_rkn_sb3a_mclachlan.hpp', 'util/detail/less_with_sign.hpp', 'integrate/detail/integrate_adaptive.hpp'],
  [('try_step', 'stepper/bulirsch_stoer.hpp'), ('try_step', 'stepper/rosenbrock4_controller.hpp'), ('less_with_sign', 'util/detail/less_with_sign.hpp')]),
P('C34', 'The integrate functions made of iterators observe and end as documented',
  'The integrate functions in iterator/integrate (selected by including them instead of integrate/) call the observer with the same states at the same times as the other integrate functions: at t0 + n*dt, after every accepted step up to exactly the end time, or at every given time, in either direction and for plain, controlled and dense-output steppers. '
  'They return the number of intervals observed (none when nothing is observed), and the state argument ends as the last observed state.',
  ['inputs', 'schedules', 'histories'], 'all states, times, step sizes, accept/reject schedules and proposals of stub steppers within bounds, and real steppers',
  'tests sample one system and a few fixed intervals',
  ['iterator/integrate/integrate_const.hpp', 'iterator/integrate/integrate_adaptive.hpp', 'iterator/integrate/integrate_times.hpp', 'iterator/integrate/integrate_n_steps.hpp', 'iterator/integrate/detail/integrate_const.hpp', 'iterator/integrate/detail/integrate_adaptive.hpp', 'iterator/integrate/detail/integrate_times.hpp', 'iterator/integrate/detail/integrate_n_steps.hpp', 'iterator/impl/adaptive_iterator_impl.hpp', 'iterator/impl/const_step_iterator_impl.hpp', 'iterator/impl/times_iterator_impl.hpp'],
  [('integrate_adaptive', 'iterator/integrate/detail/integrate_adaptive.hpp'), ('integrate_times', 'iterator/integrate/detail/integrate_times.hpp'), ('integrate_const', 'iterator/integrate/detail/integrate_const.hpp')]),
P('C35', 'Times on a grid do not accumulate rounding errors',
  'In constant-step and n-step integrations (plain, controlled and dense-output steppers; also those made of iterators and the corresponding time iterators) and in the whole steps of an adaptive integration with a plain stepper, the n-th observed time, the times steps start at and the time returned are start + n*dt up to the rounding of one product and one sum, however many steps have been made. '
  'The times are not obtained by adding up steps.',
  ['inputs', 'histories'], 'all starts and step sizes within bounds, every error of bounded size in every single operation on times',
  'tests compare times with a tolerance that grows with nothing, over a few round step sizes',
  ['integrate/detail/integrate_const.hpp', 'integrate/detail/integrate_n_steps.hpp', 'integrate/detail/integrate_adaptive.hpp', 'iterator/impl/const_step_iterator_impl.hpp', 'iterator/impl/n_step_iterator_impl.hpp', 'iterator/integrate/detail/integrate_const.hpp', 'iterator/integrate/detail/integrate_n_steps.hpp'],
  [('integrate_const', 'integrate/detail/integrate_const.hpp'), ('integrate_n_steps', 'integrate/detail/integrate_n_steps.hpp'), ('increment', 'iterator/impl/n_step_iterator_impl.hpp')]),
]
