#!/usr/bin/env python3
# generates properties.jsonl (kept as the single source of the property texts)
import json
P=[]
def p(id,title,stmt,over,q,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=q),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if observe: d['anchors']['observe_at']=observe
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)
S='src/signal/'; B='src/block/'; X='src/block/extra/'; V='src/solver/'
p('C01','A value signal is written once per pass and read only when written',
 "For scalar, integer, boolean and array signals alike, reading an unassigned signal and assigning an already assigned one are rejected with an exception and leave the signal as it was, and so is assigning an array whose length differs from the signal's (in debug builds, the default). After an accepted assignment every read, directly or through any handle, whole or by element, returns exactly the assigned value until the signal is cleared; clearing makes it unassigned and nothing else makes it so. Assigning one signal's handle from another of the same type writes the other's current value.",
 ['histories','inputs'],'every value and every interleaving of assign, read and clear on every kind of value signal',
 'tests assign one signal once; they never reassign, clear or read before writing',
 [S+'scalar_signal.hpp',S+'int_signal.hpp',S+'bool_signal.hpp',S+'array_signal.hpp',S+'value_signal.hpp'],
 [('set_value/get_value guards on the assigned flag','src/signal/*_signal.hpp')],['value read back','exception'],
 [('_assigned','value is valid for this pass',S+'value_signal.hpp')])
p('C02','A typed signal handle only ever denotes a signal of its own type',
 "Constructing or re-seating a scalar, integer, boolean, array or bus handle from a signal succeeds exactly when that signal is of the handle's type and is otherwise rejected with an exception, a re-seated handle keeping its signal; on success the handle denotes that very signal, so handles copied from or seated on the same signal share its value. A handle constructed from a name (and size) denotes a new, unassigned signal of its type, that size, with the valid form of that name. A scalar or array signal becomes a state variable exactly when given a derivative signal, which must be of the same type and the same size (otherwise it is rejected with an exception and the signal stays as it was).",
 ['inputs','programs'],'every pair of handle type and signal type, every size',
 'tests only ever use matching types',
 [S+'signal.hpp',S+'trait.hpp',S+'float_signal.hpp',S+'scalar_signal.hpp',S+'int_signal.hpp',S+'bool_signal.hpp',S+'array_signal.hpp',S+'bus.hpp'],
 [('dynamic-cast check in constructors and reset',S+'signal.hpp'),('set_deriv_signal',S+'float_signal.hpp')],['exception','identity of the denoted signal'])
p('C03','Bus lookup by index, label or dotted path finds exactly the right signal',
 "A bus built from a list holds exactly those signals in that order, labelled by the valid form of the given labels, or sig0, sig1, ... when unlabelled, and a signal without a name takes its label as name while a named one keeps it. Lookup by index gives the i-th signal, lookup by label the first signal with that label, and a dotted label descends through nested buses. A missing index or label, or a dotted label leading through a signal that is not a bus, never yields a signal: at() throws and try_at() returns empty.",
 ['inputs','programs'],'every list of signals, nesting depth and label string',
 'one test looks up a handful of existing labels; missing labels, duplicate labels, non-bus descent and try_at are not exercised',
 [S+'bus.hpp'],[('find_if on the label before the first dot, recursion on the rest',S+'bus.hpp')],['returned signal','exception','empty optional'],
 [('_signals','ordered (label, signal) list',S+'bus.hpp')])
p('C04','Names are always valid and compose into full paths',
 "The valid form of a name has the same length, keeps every ASCII letter, digit and underscore and replaces every other character by an underscore; every name given to or changed on an object is stored in that form. Joining names with | or / yields the left name, the separator . or /, and the valid form of the right name. The full name of a block is its parent's full name, a slash and its own name (just a slash and its own name for a block without parent).",
 ['inputs','programs'],'every character sequence (any byte), every nesting depth of blocks',
 'no test checks names at all',
 ['src/shared/named_object.hpp','src/shared/named_object.cpp',B+'block.cpp'],[('emend','src/shared/named_object.cpp'),('append','src/shared/named_object.hpp'),('full_name',B+'block.cpp')],['name strings'])
p('C05','Connecting a block is checked, happens once, and links exactly its signals',
 "Connecting a block succeeds only the first time and only with exactly the number of input and output signals the block demands (any number if it demands none in particular); every other attempt throws and leaves a plain block as it was. After connecting a plain block its input and output buses are the given ones, and each value signal directly on them is linked exactly once: as required input if it is on the input bus, as output if on the output bus, both if on both, and nothing else is linked. Accessing an input (or output) port later by index or label yields the signal at that port and additionally marks it, if it is a value signal, as required input (output); single-input and single-output blocks use exactly their first input and output signal.",
 ['inputs','programs'],'all buses of all lengths and contents, including repeated and nested signals, and all port limits',
 'tests only connect correctly, once, with one to three distinct signals',
 [B+'block.cpp',B+'block.hpp',B+'singlei.hpp',B+'singleo.hpp',S+'signal.hpp'],[('Block::connect, link_signal, find_linked_signal, io_at',B+'block.cpp')],['linked signals and their roles','exception'],
 [('_linked_signals','signals the block depends on, with role flags',B+'block.hpp')])
p('C06','A leaf block runs at most once per pass and only when its inputs are ready',
 "Processing a leaf block runs its activation function, exactly once and with the given time, if and only if it has not run since it was last marked unprocessed and every signal linked as required is assigned; it then counts as processed and reports 1. Otherwise processing has no effect whatsoever and reports 0. A bus memory or bus pipe, which only builds other blocks, counts as processed as soon as it is marked.",
 ['schedules','inputs'],'every set of linked signals and roles, every assignment state, every number of process calls',
 'tests run single blocks whose inputs are always ready',
 [B+'leaf.cpp',B+'block.cpp'],[('process / ready_to_process / _mark_unprocessed',B+'leaf.cpp')],['activation calls','reported count','processed flag'],
 [('_processed','ran in this pass',B+'block.hpp')])
p('C07','A submodel reaches every child, in order, exactly once',
 "A block belongs to a submodel once it is created in it or added to it, appears there once however often it is linked, and a block that already has another parent is refused, leaving both models and the block unchanged (and unconnected), while an accepted one is connected with the given input and output buses. Pre-step, post-step and marking-unprocessed of a submodel reach each child exactly once in the order of addition, with the same time; processing it deeply processes each child once in order, reports the sum of what the children report and counts as processed exactly when all children are, while an already processed one does nothing. Visiting (mutable or const) calls the callback on the block itself and then on its children in order with level+1, down to the given maximal level, stops as soon as a callback returns false, and reports whether it never did.",
 ['programs','inputs'],'all numbers of children, all callback behaviours and levels (and by induction all trees)',
 'no test contains a submodel',
 [B+'submodel.cpp',B+'submodel.hpp',B+'block.cpp',B+'block.hpp'],[('loops over _blocks',B+'submodel.cpp'),('set_parent / link_block',B+'block.cpp')],['calls received by children','return values'],
 [('_blocks','children in order of addition',B+'submodel.hpp')])
p('C08','A simulator pass runs the model to quiescence, whatever the order',
 "In every pass of the Simulator the input callback runs first, then the model's own input hook, then (if asked) its pre-step, all with the pass's time, and its post-step (if asked) last. The evaluation of a pass always ends (given that the activations do), and then every leaf block whose required inputs are assigned has been processed, each at most once in that pass, whatever order the blocks were added in and whether or not the order of the previous pass is reused. With order reuse, the remembered order always contains every block of the model exactly once.",
 ['schedules','programs'],'all models, all orders of blocks, all remembered orders',
 'tests have one block per model; no ordering can go wrong there',
 [V+'simulator.cpp',V+'simulator.hpp',B+'submodel.cpp',B+'leaf.cpp'],[('fixpoint loops in process_model',V+'simulator.cpp'),('swap of current and new order',V+'simulator.cpp')],['which blocks ran, and how often'],
 [('_processing_order1/2','remembered and new order',V+'simulator.hpp')])
p('C09','The fast simulator fixes a valid order of all leaf blocks or refuses the model',
 "Initialising a FastSimulator always ends (given that the activations do), and succeeds only if every leaf block of the model could be ordered, each exactly once and only after its required inputs were available; otherwise it throws. On success every pass calls the input callback, the model's input hook, the pre-step if asked, then the activation of every leaf exactly once in that order with the pass's time, then the post-step if asked.",
 ['schedules','programs'],'all models, including ones with algebraic loops or unprovided inputs',
 'no test uses the fast simulator',
 [V+'fast_simulator.cpp',V+'fast_simulator.hpp'],[('wave-by-wave ordering in init',V+'fast_simulator.cpp'),('process_model',V+'fast_simulator.cpp')],['activation order','exception'],
 [('_processing_order','waves of leaves',V+'fast_simulator.hpp')])
p('C10','The state vector faithfully carries every state variable and its derivative',
 "Initialising a simulator (again) collects every value signal linked to any block of the model exactly once, clears them all, and sizes the state vector to one entry per scalar state variable plus the length of each array state variable. Loading a state vector clears every collected value signal and assigns each state variable its own slice, reading the state variables back yields the same vector, and the derivative function handed to the stepper loads the given state, evaluates the model at the given time without pre- or post-step and returns, slice by slice in the same layout, the value of each state variable's derivative signal.",
 ['programs','inputs'],'all models, all numbers and sizes of state variables, all state values',
 'no test has a state variable',
 [V+'simulator_base.cpp',V+'simulator_base.hpp',S+'float_signal.hpp'],[('init, reset_with_state_variables, get_state_variables, derivative callback in run',V+'simulator_base.cpp')],['signal values, returned derivative vector'],
 [('_state_variables, scalar_state_signals_, array_state_signals_','state vector and its layout',V+'simulator_base.hpp')])
p('C11','run() advances time in contiguous bounded steps and never goes back',
 "The first run (without prior init) initialises at the given time; a run of a model with state variables to an earlier time than the previous one throws. A later run to t covers the interval from the previous time to exactly t with consecutive attempted sub-steps, each starting where the last accepted one ended, ending no later than t, of positive length at most the maximum time step, and a sub-step is repeated from the same start (shorter, but not below the minimum time step) only when the stepper proposes a smaller step, the length exceeds the minimum time step and the previous attempt's proposal was above the minimum. Every sub-step starts with cleared signals, the input callback, the input hook and the pre-step at its start time, each accepted intermediate state is loaded and evaluated with post-step at the time reached, and the run ends with the final state loaded and evaluated with post-step at t (for a repeated t, and for models without state variables, without any sub-step).",
 ['histories','inputs'],'all times, step limits and step-size proposals a stepper can make',
 'no test uses a stepper; step rejection and clamping are never exercised',
 [V+'simulator_base.cpp'],[('accept/redo loop in run',V+'simulator_base.cpp')],['step calls and their arguments, evaluation times'],
 [('_t_prev','time reached',V+'simulator_base.hpp')])
p('C12','Euler, RK4 and RKF45 compute their textbook formulas',
 "For every derivative function, start time, state vector and end time, a step of Euler, classical RK4 and RKF45 evaluates the derivative at the stage times and stage states of its Butcher tableau, in order, and yields the tableau's combination elementwise (the fourth-order solution for RKF45), leaving the start state untouched, up to rounding. Euler and RK4 propose the step they made; RKF45 halves, keeps or doubles it when the scaled inverse error (0.001*h)/(2*max|v4-v5|) is below 0.75^4, in between, or above 1.5^4, keeping it when the error is exactly zero.",
 ['inputs'],'all derivative functions, times, dimensions and states (over the reals)',
 'no test uses a stepper; wrong high-order coefficients stay invisible in sample runs',
 [V+'euler.cpp',V+'rk4.cpp',V+'rkf45.cpp',V+'stepper_base.hpp'],[('step()',V+'rkf45.cpp')],['stage arguments, resulting state, proposed step'])
p('C13','Integrators expose and update their state correctly',
 "An integrator's output is a state variable whose derivative is its first input; the input is not required to be known for the block to run but its output is. At pre-step it assigns its held value (initially the given initial value) to its output and at post-step it takes over its output's value. A triggered integrator additionally holds zero from the first pre-step after a pass in which it was activated with its trigger true, once per such trigger, keeps its value otherwise, and never forgets a trigger seen between two pre-steps.",
 ['histories','inputs'],'all values and all histories of pre-steps, activations and post-steps, scalar and array',
 'no test uses integrators',
 [B+'integrator_base.hpp',B+'integrator.hpp',X+'triggered_integrator.hpp'],[('pre_step/post_step/connect',B+'integrator_base.hpp')],['output value, link roles'],
 [('_value','held state',B+'integrator_base.hpp'),('_triggered','reset pending',X+'triggered_integrator.hpp')])
p('C14','Arithmetic, function and source blocks compute exactly their formula',
 "When activated at time t each block assigns to its output: Add the initial value plus all inputs, Multiply the initial value times all inputs, Subtract first minus second, Divide first over second, Gain the gain times the input, Const its constant, Source its function of t, SISO function its function of t and the input, SO function its function of t and the input bus; elementwise for arrays, any number of inputs, the same on every activation. The multi-port function and sources blocks call their function exactly once with t and their buses.",
 ['inputs','histories'],'all input counts, values, array lengths and repeated activations',
 'tests cover Gain with a few values; Add/Multiply/Subtract/Divide/function blocks are untested',
 [X+'add.hpp',X+'multiply.hpp',X+'subtract.hpp',X+'divide.hpp',X+'gain.hpp',X+'const.hpp',X+'source.hpp',X+'sources.hpp',X+'function.hpp',X+'siso_function.hpp',X+'so_function.hpp'],
 [('activation_function of each block',X)],['output values'])
p('C15','A memory outputs the previous step\'s input; a pipe the current input',
 "A memory block outputs its initial value until its first post-step and from then on the value its input had at the latest post-step, for scalar, integer, boolean and array signals; evaluating it never changes what it holds. It can run without its input being known. A pipe's output equals its input.",
 ['histories','inputs'],'all histories of evaluations and post-steps, all value types',
 'tests cover one constant-initial scalar and array sequence',
 [X+'memory.hpp',X+'pipe.hpp'],[('post_step/activation_function/connect',X+'memory.hpp')],['output values, link roles'],
 [('_value','held value',X+'memory.hpp')])
p('C16','A delay reproduces its input history, linearly interpolated',
 "Given post-steps at strictly increasing times, a delay block activated at a time t not before the last post-step with a delay d not above its lifespan outputs, for q = t - d: the initial-value input if there was no post-step or q is not after the first post-step's time, the last recorded input if q is at or after the last post-step's time, and otherwise the linear interpolation at q between the two neighbouring recorded inputs. The same holds elementwise for arrays, and discarding outdated samples never changes any such output.",
 ['histories','inputs'],'all sample histories, step sizes, delays within the lifespan, scalar and array',
 'the tests use one linear signal, uniform steps and a lifespan beyond the simulated time, so pruning never happens',
 [X+'delay.hpp'],[('post_step pruning, activation_function search and interpolation',X+'delay.hpp')],['output value'],
 [('_t, _x','recorded times and inputs',X+'delay.hpp')])
p('C17','Derivative and initial-value blocks follow their defining rule',
 "Before its first post-step a derivative block outputs its initial value; afterwards, activated at time t, it outputs (input now - input at the last post-step) / (t - time of the last post-step), or at exactly that last time the output it had then. An initial-value block outputs, at every activation, the input value of its first activation, and no longer requires its input afterwards. Both hold for scalars and, elementwise, for arrays.",
 ['histories','inputs'],'all histories of activations and post-steps, all times and values',
 'no test uses either block',
 [X+'derivative.hpp',X+'initial_value.hpp'],[('post_step/activation_function',X+'derivative.hpp')],['output value'],
 [('_t,_x,_y','last step',X+'derivative.hpp'),('_value,_init','captured value',X+'initial_value.hpp')])
p('C18','Bus memory and bus pipe act on every signal of their (nested) bus',
 "Connecting a bus memory or bus pipe creates, in its parent, one memory or pipe of the matching type per value signal of the input bus at any nesting depth, in order, wired from the signal with that dotted label on the input bus to the one with the same dotted label on the output bus and named after the label, except for excluded labels (a nested bus is excluded by its label with a trailing dot). Each bus-memory block starts with the initial value given for its label, or zero (false), and (in debug builds) initial values left unused are rejected with an exception.",
 ['inputs','programs'],'all bus shapes, label sets, exclusions and initial values',
 'no test uses the bus blocks',
 [X+'bus_block_builder.cpp',X+'bus_block_builder.hpp',X+'bus_memory.cpp',X+'bus_memory.hpp',X+'bus_pipe.cpp'],[('visit_bus and block_builder',X+'bus_block_builder.cpp')],['created blocks and their wiring'],
 [('_blocks','created blocks',X+'bus_block_builder.hpp')])
p('C19','History records exactly the tracked signals, row by row, without loss',
 "A signal can be tracked once and only if it is a value signal, and untracking removes exactly that signal if it is tracked. Updating row k stores the time and, for every tracked signal, its value (zero if unassigned, true as one) in row k, grows the storage as needed for any growth size, and changes no other recorded row (with no signal tracked, nothing is recorded); the number of rows is one more than the largest row updated. Shrinking keeps exactly these rows with their contents and reading a tracked signal returns its own record.",
 ['histories','inputs'],'all sequences of track/untrack/update/shrink, all row numbers, growth sizes and signal types',
 'no test uses the history',
 [V+'history.cpp',V+'history.hpp'],[('track/untrack/update/shrink_to_fit',V+'history.cpp')],['time() and per-signal matrices'],
 [('_bottom_row','last row',V+'history.hpp'),('_time','row times',V+'history.hpp')])
p('C20','The CSV export is a faithful rectangular image of the history',
 "Exporting a non-empty history writes a header 'time' followed, for every recorded signal, by its name (or name[0] ... name[n-1] for an array signal of length n), then exactly one line per recorded row, in order, with that row's time and the value in that row of the column's signal; every line has the same number of comma-separated fields, in the same order as the header. An empty history writes nothing.",
 ['inputs','histories'],'all histories: any number, type and size of signals and rows, shrunk or not',
 'no test exports a history',
 [V+'history.cpp'],[('export_csv',V+'history.cpp')],['file contents'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d)+'\n' for d in P))
print(len(P))
