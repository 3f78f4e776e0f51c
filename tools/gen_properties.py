#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the statements live here, one call per property)."""
import json, os, sys
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
                  quantifier=dict(over=over, text=text), why_tests_cant=' '.join(why.split()),
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=list(observe), hook_needed=None)))

prop('C01', 'A value signal is written once per evaluation and never read before that',
 '''For scalar, integer, boolean and array signals alike: a signal starts unassigned, assigning stores exactly the given value and marks it assigned,
 reading returns exactly the stored value without changing anything, and clearing makes it unassigned again. With the debug checks on, assigning an already
 assigned signal, reading an unassigned one, and assigning an array of another size are each rejected with an exception that leaves the signal as it was.
 Assigning or converting through the typed signal handles does the same thing as using the signal itself.''',
 ['inputs', 'histories'], 'every value, every kind of signal, every sequence of assign/read/clear on it',
 'The tests touch a scalar signal and a handful of values; the discipline must hold for all four kinds and for every order of assign, read and clear.',
 ['src/signal/value_signal.hpp', 'src/signal/scalar_signal.hpp', 'src/signal/array_signal.hpp', 'src/signal/int_signal.hpp', 'src/signal/bool_signal.hpp'],
 [('set_value / get_value / clear / assigned of every signal kind', 'src/signal/*_signal.hpp'), ('handle assignment and conversion operators', 'src/signal/*_signal.hpp')],
 [('_assigned', 'has the value been assigned in this evaluation', 'src/signal/value_signal.hpp')])

prop('C02', 'A signal handle always refers to a live signal of its own type',
 '''A typed signal handle (scalar, array, integer, boolean, bus) always refers to an existing signal of exactly its type: building one from, or re-pointing one to, a signal of
 another type raises an exception, and a refused re-pointing leaves the handle referring to what it referred to before. Copying a handle or re-pointing it
 makes both of its views (generic and typed) refer to the very same signal, and no operation (including moving from it) leaves a handle empty.''',
 ['inputs', 'histories'], 'every handle type, every signal it can be built from or re-pointed to, every sequence of such operations',
 'The tests only build matching handles; mismatches, refused re-pointing and moved-from handles are never exercised.',
 ['src/signal/signal.hpp', 'src/signal/scalar_signal.hpp', 'src/signal/array_signal.hpp', 'src/signal/int_signal.hpp', 'src/signal/bool_signal.hpp', 'src/signal/bus.hpp'],
 [('Signal / SignalT constructors and reset', 'src/signal/signal.hpp'), ('fail_if_invalid_signal_type', 'src/signal/signal.hpp')])

prop('C03', 'Signals exist only under shared ownership and cannot be re-seated by accident',
 '''User code cannot create a signal object except through the factory that puts it under shared ownership, and library code never stores a signal by raw pointer, so a signal
 lives as long as any handle, bus, block, simulator or history refers to it. Assigning to a typed value handle (scalar, integer, boolean, array) never silently re-seats it or mixes types: assigning a generic
 signal, or a handle of another kind where no value conversion is offered, does not compile.''',
 ['programs'], 'every program written against the public headers',
 'A test cannot show that a misuse does not compile, nor that no part of the library keeps a bare pointer to a signal.',
 ['src/signal/signal.hpp', 'src/signal/scalar_signal.hpp', 'src/signal/bus.hpp', 'src/solver/simulator_base.hpp', 'src/solver/history.hpp', 'src/block/block.hpp'],
 [('the Protected passkey and create_new factories', 'src/signal/*_signal.hpp'), ('deleted assignment operators', 'src/signal/*_signal.hpp'), ('shared_ptr fields', 'src/block/block.hpp, src/solver/*.hpp')])

prop('C04', 'Names contain only letters, digits and underscores, and compose predictably',
 '''Whatever text it is made from, a name keeps the length of that text, keeps every ASCII letter, digit and underscore, and has every other character replaced by an underscore.
 Joining two names gives the left name, then "/" (path) or "." (label), then the valid form of the right one. A block's full name is its parent's full name joined by "/" with its own name, up to the root.''',
 ['inputs'], 'every byte string as a name, every nesting of blocks',
 'Tests use a few well-formed identifiers; the rule must hold for every character and every nesting depth.',
 ['src/shared/named_object.hpp', 'src/shared/named_object.cpp', 'src/block/block.cpp'],
 [('ValidName::emend', 'src/shared/named_object.cpp'), ('ValidName::append and operators', 'src/shared/named_object.hpp'), ('Block::full_name', 'src/block/block.cpp')])

prop('C05', 'Bus lookup finds exactly the labelled signal, at any nesting depth',
 '''A bus lists its signals in the order given, under the valid form of the given labels, or under "sig0", "sig1", ... when no labels are given; a signal that had no name takes its label as
 name and a named one keeps its name. Looking up an index or a label yields exactly the first signal stored under it, a dotted label descends into nested buses one part at a time, and a label that is absent or that
 continues below a signal that is not a bus is reported: by an exception for the throwing lookup, by an empty result for the non-throwing one.''',
 ['inputs'], 'every bus content, nesting and label',
 'test_bus checks a few labels of one nested bus; missing labels at depth, non-bus intermediate signals and duplicates are not sampled.',
 ['src/signal/bus.hpp'],
 [('BusImpl constructor', 'src/signal/bus.hpp'), ('BusImpl::at / try_at / operator[]', 'src/signal/bus.hpp'), ('Bus forwarding functions', 'src/signal/bus.hpp')])

prop('C06', 'Connecting a block is all-or-nothing and records every value signal',
 '''Connecting a block that is already connected, or with a number of inputs or outputs other than the block requires, raises an exception and leaves the block unconnected (or connected as before).
 A successful connection makes the given buses the block's own, and links every value signal among its inputs as a required input and every one among its outputs as an output; a signal met again accumulates roles and is
 listed only once, and buses themselves are not linked.''',
 ['inputs', 'histories'], 'every block, every pair of buses, every order of attempts',
 'Tests connect well-formed blocks once; wrong arities, reconnection and signals appearing on both sides are not exercised.',
 ['src/block/block.hpp', 'src/block/block.cpp'],
 [('Block::connect', 'src/block/block.cpp'), ('Block::link_signal / find_linked_signal', 'src/block/block.cpp'), ('Block::io_at / input / output', 'src/block/block.hpp')],
 [('_linked_signals', 'the value signals this block uses and their roles', 'src/block/block.hpp')])

prop('C07', 'Every block type enforces its arity and binds its named ports',
 '''Each library block requires exactly its own number of ports: one input and one output for Gain, Pipe, Memory, Derivative, InitialValue, Integrator and SISOFunction, two inputs for Subtract and Divide (first, second) and for the triggered integrator,
 three for Delay ("in", "delay", "initial"), none for Const and Sources, one output for every block with a single output.
 Connecting a block binds its ports to exactly those inputs and outputs, only after the general connection succeeded, and reports failure if that failed.''',
 ['inputs', 'configurations'], 'every block type and instantiation, every connection',
 'Only gain, delay and memory are ever connected by a test, always correctly.',
 ['src/block/singlei.hpp', 'src/block/singleo.hpp', 'src/block/integrator_base.hpp', 'src/block/extra/*.hpp'],
 [('constructors passing num_iports/num_oports', 'src/block/extra/*.hpp'), ('connect overrides', 'src/block/**/*.hpp')])

prop('C08', 'A leaf block runs at most once per pass, and only when its inputs are ready',
 '''Within one evaluation pass a leaf block computes its outputs at most once, and only when every signal it requires has been assigned; a block whose required signals are all assigned and that has not run yet does run when processed.
 Processing reports 1 exactly when the block ran in that call and 0 otherwise, and marks it processed exactly then. Starting a new pass makes every ordinary block unprocessed again.''',
 ['histories', 'schedules'], 'every block, every order in which blocks are processed',
 'The order in which blocks become ready depends on the model; tests use one-block models.',
 ['src/block/leaf.cpp', 'src/block/leaf.hpp', 'src/block/block.cpp'],
 [('Leaf::process', 'src/block/leaf.cpp'), ('Leaf::ready_to_process', 'src/block/leaf.cpp'), ('Block::_mark_unprocessed', 'src/block/block.cpp')],
 [('_processed', 'has the block been evaluated in this pass', 'src/block/block.hpp')])

prop('C09', 'A submodel passes every phase and visit to all of its blocks',
 '''A submodel forwards pre-step, post-step and the start of a pass to each of its blocks exactly once, with the same time, in the order they were added; processing it processes every block not yet processed, returns the total
 of what they report, and leaves it processed exactly when all of its blocks are. Visiting presents the submodel and then each block one level deeper, never beyond the maximum level, and stops and reports false as soon as the visitor does.
 The read-only visit behaves the same.''',
 ['inputs', 'programs'], 'every submodel, every number and nesting of blocks, every visitor',
 'No test contains a submodel.',
 ['src/block/submodel.hpp', 'src/block/submodel.cpp', 'src/block/block.hpp'],
 [('Submodel::pre_step/post_step', 'src/block/submodel.hpp'), ('Submodel::process/visit/const_visit/_mark_unprocessed', 'src/block/submodel.cpp')],
 [('_blocks', 'the direct children', 'src/block/submodel.hpp')])

prop('C10', 'A block belongs to one parent, which lists it exactly once',
 '''A block built with a parent, or given one later, is listed by that parent exactly once however often it is registered. Giving a block a different parent than it has is refused with a warning and changes nothing,
 and a submodel refuses to list a block whose parent is another one. Adding a block to a submodel sets its parent and connects it with the given buses, or reports failure without connecting it.''',
 ['histories'], 'every sequence of constructions, set-parent, link and add operations',
 'No test uses a parent.',
 ['src/block/block.cpp', 'src/block/submodel.cpp'],
 [('Block constructor and set_parent', 'src/block/block.cpp'), ('Submodel::link_block/add_block', 'src/block/submodel.cpp')])

prop('C11', 'The simulator keeps evaluating until no further block can run',
 '''In every evaluation pass the simulator goes on processing blocks until a complete sweep over them makes no progress, so each block whose inputs can become available is evaluated, whatever order the blocks were added in.
 With order re-use enabled the remembered order always contains every block of the model exactly once, blocks that could not be processed included, and is remembered in the order of evaluation for the next pass.''',
 ['programs', 'schedules'], 'every model, every order of adding blocks, with and without order re-use',
 'Tests run single blocks, where any order works.',
 ['src/solver/simulator.cpp', 'src/solver/simulator.hpp'],
 [('Simulator::process_model', 'src/solver/simulator.cpp'), ('Simulator::init', 'src/solver/simulator.cpp')],
 [('_current_po/_new_po', 'remembered and newly recorded processing order', 'src/solver/simulator.hpp')])

prop('C12', 'The fast simulator runs each leaf once, in an order that works, or refuses',
 '''Initialising the fast simulator determines an order in which every leaf block that has anything to compute appears exactly once and only after the blocks producing its required signals, or raises an exception when there is no such order, whatever state earlier simulations left the
 model in. Every later pass evaluates exactly the blocks of that order, each once, in that order, with the time of the pass.''',
 ['programs', 'schedules'], 'every model and order of adding blocks',
 'No test uses the fast simulator.',
 ['src/solver/fast_simulator.cpp', 'src/solver/fast_simulator.hpp'],
 [('FastSimulator::init', 'src/solver/fast_simulator.cpp'), ('FastSimulator::process_model', 'src/solver/fast_simulator.cpp')],
 [('_processing_order', 'leaves in evaluation order, by dependency level', 'src/solver/fast_simulator.hpp')])

prop('C13', 'Every pass supplies inputs and states before any block is evaluated',
 '''In every evaluation pass of either simulator, first the user's input callback (if any) and then the model's own input hook run, with the time of the pass; then the pre-step phase if it is asked for; then the blocks are evaluated; then the post-step phase if it is asked for.
 Each of these happens exactly once per pass and both simulators follow the same order. Initialisation evaluates the model once at the initial time with both phases.''',
 ['schedules', 'configurations'], 'both simulators, every combination of phases, with and without callback',
 'Tests use one simulator with one callback and look only at a block output.',
 ['src/solver/simulator.cpp', 'src/solver/fast_simulator.cpp'],
 [('process_model', 'src/solver/simulator.cpp, src/solver/fast_simulator.cpp'), ('init', 'src/solver/simulator.cpp, src/solver/fast_simulator.cpp')])

prop('C14', 'Every evaluation starts from cleared signals',
 '''The simulator knows every value signal linked by any block of the model, at any depth, and each scalar or array state variable among them, each once, even when initialised again. All of them are cleared before every evaluation of the model and before every time the integrators
 publish their states, so no value of an earlier evaluation survives into the next.''',
 ['histories', 'programs'], 'every model, every sequence of init and run calls',
 'Stale values only show in models where a block order or a sub-step exposes them; tests have neither.',
 ['src/solver/simulator_base.cpp', 'src/solver/fast_simulator.cpp'],
 [('SimulatorBase::init', 'src/solver/simulator_base.cpp'), ('SimulatorBase::run / reset_with_state_variables', 'src/solver/simulator_base.cpp')],
 [('value_signals_', 'all value signals of the model', 'src/solver/simulator_base.hpp'), ('scalar_state_signals_/array_state_signals_', 'the state variables', 'src/solver/simulator_base.hpp')])

prop('C15', 'State values, signals and derivatives always line up in the state vector',
 '''Reading the states into the state vector, writing them back to the signals and collecting the derivatives all use the same layout: every scalar state takes one entry and every array state exactly its size, one after the other without gaps or overlap, within a vector whose length is
 the total number of state entries. The derivative entry at a position is the derivative of the state at that position.''',
 ['programs'], 'every mix and number of scalar and array states',
 'No test has a state variable, let alone scalar and array states mixed.',
 ['src/solver/simulator_base.cpp'],
 [('get_state_variables / reset_with_state_variables', 'src/solver/simulator_base.cpp'), ('minor step callback in run', 'src/solver/simulator_base.cpp'), ('size counting in init', 'src/solver/simulator_base.cpp')])

prop('C16', 'Each stepper is the Runge-Kutta method it claims to be',
 '''For every system, state, time and step size, the Euler, RK4 and RKF45 steppers evaluate the derivative at stage times and states that satisfy the consistency and order conditions of an explicit Runge-Kutta method of order 1, 4 and 4 (with an order 5 embedded
 solution for RKF45), starting from the given state at the start time and advancing to the end time. Euler and RK4 propose to keep the step size; RKF45 halves it, keeps it or doubles it when the ratio of the tolerated to the estimated error is below 0.75^4, in between, or above 1.5^4, and keeps it when the two solutions do not differ at all.''',
 ['inputs'], 'every right-hand side, state, start time and step size',
 'A wrong coefficient changes results by a small error that no sampled trajectory in the test suite looks at; the order conditions quantify over all right-hand sides.',
 ['src/solver/euler.cpp', 'src/solver/rk4.cpp', 'src/solver/rkf45.cpp', 'src/solver/stepper_base.hpp'],
 [('step()', 'src/solver/euler.cpp, rk4.cpp, rkf45.cpp'), ('StepperBase::f', 'src/solver/stepper_base.hpp')])

prop('C17', 'A run advances time monotonically and lands exactly on the requested time',
 '''A run to a later time proceeds in sub-steps that each start where the last accepted one ended, never pass the requested time, are never longer than the maximum step, and end exactly at the requested time, which becomes the new current time. A sub-step is redone from the same start with a smaller step (not below the minimum)
 when the stepper asks for one, and accepted when the stepper is satisfied, when it is already no longer than the minimum step, or when it was retried at the minimum step. For a model with states, a run to an earlier time is refused with an exception before anything changes.''',
 ['inputs', 'schedules'], 'every sequence of requested times, step bounds and step proposals of the stepper',
 'No test runs a stepper; the branches for rejection and forced acceptance depend on the error estimates met during a run.',
 ['src/solver/simulator_base.cpp'],
 [('SimulatorBase::run', 'src/solver/simulator_base.cpp')],
 [('_t_prev', 'the current time', 'src/solver/simulator_base.hpp')])

prop('C18', 'State is committed once per accepted step and never by trial evaluations',
 '''Blocks are told to commit (post-step) exactly once for every accepted sub-step, after the model has been evaluated with the accepted states at its end time, and not for rejected sub-steps or for the stepper's trial evaluations, which also publish nothing (no pre-step). Every sub-step starts by
 publishing the committed states and taking them from the signals, so a rejected attempt leaves no trace.''',
 ['schedules', 'histories'], 'every sequence of accepted and rejected sub-steps',
 'Tests never reject a step and never look at intermediate commits.',
 ['src/solver/simulator_base.cpp'],
 [('SimulatorBase::run', 'src/solver/simulator_base.cpp'), ('minor step callback', 'src/solver/simulator_base.cpp')])

prop('C19', 'Evaluating a block never changes its remembered state',
 '''A block evaluated any number of times at trial points between two commits gives the same outputs for the same inputs and time as if it had been evaluated once: evaluation leaves everything the block remembers between steps untouched. The only exceptions are the initial-value block, which latches its first input, and the
 derivative block before its first commit.''',
 ['histories', 'schedules'], 'every block type, every number of evaluations between commits',
 'How often a block is evaluated depends on the stepper and on rejected steps; the tests evaluate once per step.',
 ['src/block/extra/*.hpp', 'src/block/integrator_base.hpp'],
 [('activation_function overrides', 'src/block/**'), ('pre_step/post_step overrides', 'src/block/**')])

prop('C20', 'Integrators and memories break algebraic loops',
 '''An integrator or a memory can be evaluated without its input having a value, so a feedback loop through it can be solved: a memory's input is not required to be assigned, an integrator's input is not required and its output is instead supplied before evaluation from the state and required to be so.
 All other blocks require all of their inputs. The integrator's input is registered as the derivative of its output.''',
 ['programs'], 'every feedback structure',
 'No test contains a feedback loop.',
 ['src/block/integrator_base.hpp', 'src/block/extra/memory.hpp', 'src/block/extra/triggered_integrator.hpp'],
 [('IntegratorBaseT::connect', 'src/block/integrator_base.hpp'), ('MemoryT::connect', 'src/block/extra/memory.hpp')])

prop('C21', 'Integrator state is published before and committed after each step',
 '''An integrator starts at its initial condition, publishes exactly its stored state on its output in the pre-step phase, and stores exactly the final value of its output in the post-step phase. A triggered integrator does the same, except that when its trigger was set at the end of a step, its state restarts from zero
 at the following pre-step, once.''',
 ['histories'], 'every initial condition, value history and trigger history, scalar and array',
 'No test uses an integrator.',
 ['src/block/integrator_base.hpp', 'src/block/integrator.hpp', 'src/block/extra/triggered_integrator.hpp'],
 [('pre_step/post_step', 'src/block/integrator_base.hpp'), ('TriggeredIntegratorT', 'src/block/extra/triggered_integrator.hpp')],
 [('_value', 'the stored state', 'src/block/integrator_base.hpp')])

prop('C22', 'State and derivative signals are paired only when type and size agree',
 '''A scalar or array signal is a state variable exactly when a derivative signal has been registered for it, and then that derivative signal has the same type and size. Registering one of another type or size raises an exception and keeps the previous registration. A signal reports
 exactly the size it was created with, which for a scalar is 1.''',
 ['inputs'], 'every pair of signals',
 'No test registers a derivative signal.',
 ['src/signal/float_signal.hpp', 'src/signal/array_signal.hpp', 'src/signal/scalar_signal.hpp'],
 [('FloatSignalImplT::set_deriv_signal', 'src/signal/float_signal.hpp')])

prop('C23', 'Arithmetic and function blocks compute their documented formula',
 '''For every input value, scalar or array: Add outputs its initial value plus all inputs, Multiply its initial value times all inputs, Subtract first minus second, Divide first over second, Gain its gain times the input, Pipe the input, Const its value, Source its function of the time, and the function blocks
 the result of the user function of the time and their input or input bus. Each of them writes each output exactly once per evaluation; Function and Sources hand the time and their own buses to the user function.''',
 ['inputs'], 'every input value, parameter, number of inputs and instantiation',
 'Tests sample Gain with a few values; the other blocks are not tested.',
 ['src/block/extra/*.hpp'],
 [('activation_function', 'src/block/extra/{add,multiply,subtract,divide,gain,pipe,const,source,sources,function,siso_function,so_function}.hpp')])

prop('C24', 'Memory, delay, derivative and initial-value blocks give the right past value',
 '''A memory outputs its initial value first and from then on its input of the previous committed step. A delay outputs its initial input until the delayed time is later than its first recorded time, then the recorded input at the delayed time, interpolated linearly between the two recorded samples around it (the latest sample when the delayed time
 is not before it), and keeps all samples that a delayed time within its lifespan needs. A derivative outputs its initial value first, then the change of the input since the last committed step divided by the elapsed time (the last output when no time has elapsed); an initial-value block outputs the first input it saw.''',
 ['inputs', 'histories'], 'every input history, delay and sequence of step times',
 'Tests sample one delay and one memory history with regular steps.',
 ['src/block/extra/memory.hpp', 'src/block/extra/delay.hpp', 'src/block/extra/derivative.hpp', 'src/block/extra/initial_value.hpp'],
 [('activation_function / post_step', 'src/block/extra/{memory,delay,derivative,initial_value}.hpp')])

prop('C25', 'Bus memories and bus pipes build one matching block per bus entry',
 '''Connecting a bus memory or bus pipe creates, for every value signal at any depth of the input bus whose full label is not excluded, exactly one memory or pipe block of the same kind of value, under the same parent, named after the full label and connecting the input to the equally labelled output; an excluded label (or nested bus) gets none. A bus memory's block starts from the initial value given for
 its full label or else from zero (false for booleans); each given initial value is used once, and with the debug checks on a left-over one is reported by an exception.''',
 ['inputs', 'programs'], 'every bus shape, exclusion list and initial-value map',
 'No test uses them.',
 ['src/block/extra/bus_block_builder.cpp', 'src/block/extra/bus_memory.cpp', 'src/block/extra/bus_pipe.cpp'],
 [('BusBlockBuilder::visit_bus/connect', 'src/block/extra/bus_block_builder.cpp'), ('block_builder', 'src/block/extra/bus_memory.cpp, bus_pipe.cpp')])

prop('C26', 'History keeps the recorded value of every tracked signal at every step',
 '''Updating the history at row k stores the given time and, for every tracked signal of any kind, its current value (all entries of an array; zero when unassigned) in row k, growing its storage when necessary without losing earlier rows; every access stays within the storage. Tracking accepts each value signal once and nothing else, untracking
 removes exactly that signal, the number of rows is one more than the highest row stored, and shrinking removes only unused rows.''',
 ['inputs', 'histories'], 'every set of tracked signals, growth setting and sequence of updates',
 'No test uses the history.',
 ['src/solver/history.hpp', 'src/solver/history.cpp'],
 [('History::track/untrack/update/shrink_to_fit', 'src/solver/history.cpp')],
 [('_bottom_row', 'highest row stored', 'src/solver/history.hpp')])

prop('C27', 'The CSV export has matching columns and one line per recorded row',
 '''The exported file starts with a header naming time and then every tracked signal (one column per entry for arrays), followed by exactly one line per recorded row holding the time and the recorded values of that row, the columns of every line in the order of the header. Nothing is written when nothing was recorded.''',
 ['inputs'], 'every recorded history',
 'No test exports a history.',
 ['src/solver/history.cpp'],
 [('History::export_csv', 'src/solver/history.cpp')])

prop('C28', 'Debug checks only check: release builds behave the same on valid use',
 '''Turning the debug checks off changes nothing but the checks themselves and their diagnostics: for every use that passes the checks, the library performs the same operations on signals, blocks and states and returns the same results in both builds. No debug-only condition, message or trace has a side effect on the simulation.''',
 ['configurations', 'inputs'], 'every function of the library, both build modes',
 'The tests are built in one mode only.',
 ['src/helper/verify.hpp', 'src/helper/trace.hpp', 'src/helper/defs.hpp', 'src/**'],
 [('pooya_debug_verify / pooya_trace macros', 'src/helper/verify.hpp, trace.hpp'), ('#if defined(POOYA_DEBUG)', 'src/**')])

prop('C29', 'The traceback always mirrors the active calls, and errors carry it',
 '''Every traced scope adds exactly one entry to the traceback when it is entered and removes exactly that entry when it is left, normally or by an exception, and its information goes to its own entry. Reporting an error always raises a runtime error whose text contains the location, the message and (in debug builds) the traceback, most recent call first;
 reporting a warning never raises one.''',
 ['schedules', 'inputs'], 'every call structure and exception',
 'No test looks at the traceback.',
 ['src/helper/trace.hpp', 'src/helper/trace.cpp', 'src/helper/util.cpp', 'src/helper/verify.hpp'],
 [('PooyaTracer', 'src/helper/trace.hpp'), ('pooya_throw_exception', 'src/helper/util.cpp')])

prop('C30', 'Every public block, signal and simulator type is usable from its own header',
 '''Each public header compiles on its own, every block type alias it offers can be fully instantiated (all members compile for that value type), and all headers can be included by several translation units of one program without multiple definitions. Every offered concrete block type can be constructed.''',
 ['programs', 'configurations'], 'every header, alias and combination of headers in a program, debug and release',
 'A template member that is never instantiated by a test is never compiled.',
 ['src/**/*.hpp'],
 [('using X = XT<...> aliases', 'src/block/**/*.hpp')])

prop('C31', 'Simulated results do not depend on the accuracy of the stepper beyond its order',
 '''For every model with smooth right-hand sides, the simulated trajectory converges to the exact solution as the maximum step goes to zero.''',
 ['inputs', 'programs'], 'every model and trajectory', 'An analytic limit over all models.',
 ['src/solver/*.cpp'], [('steppers and run', 'src/solver/')])

prop('C32', 'Simulator and fast simulator produce identical trajectories',
 '''For every model the fast simulator accepts, both simulators produce bit-identical signal values at all times.''',
 ['programs', 'inputs'], 'every model and input', 'It compares whole executions of arbitrary user models.',
 ['src/solver/simulator.cpp', 'src/solver/fast_simulator.cpp'], [('process_model', 'src/solver/')])

prop('C33', 'Every run terminates',
 '''Every call to run with positive step bounds ends after finitely many sub-steps, for every model and every floating-point time.''',
 ['inputs'], 'every time, step bound and model', 'Termination depends on rounding of t + h and on user callbacks.',
 ['src/solver/simulator_base.cpp'], [('sub-step loop', 'src/solver/simulator_base.cpp')])

with open(OUT, 'w') as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P), 'properties')
