"""Writes /verif/properties.jsonl (run by hand when a property changes)."""
import json, os
S='src/openclsim/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=[S+f for f in files],
        state=[dict(name=a,meaning=b,where=S+c) for a,b,c in state],
        mechanism=[dict(name=a,where=S+b) for a,b in mech],
        observe_at=observe,hook_needed=None)))
ANY="every model built from the public activities and objects, and every order in which its simultaneous and overlapping events are processed"
p('C01','Material is conserved by every transfer',
 "For every kind of content, the total over all containers plus the amounts in transfers that are currently running is the same at every instant of a simulation. A transfer removes from its origin, when it starts, exactly the amount it adds to its destination when it stops, of the content kind it names, and nothing else ever changes a container level.",
 ['programs','schedules','histories'],ANY+", with single and multi containers, shared sites, loops and refusals",
 "The tests compare a few final levels of fixed models; conservation has to hold at every instant of every interleaving of transfers, including partial last loads, multi containers and cut-off runs.",
 ['core/events_container.py','core/processor.py','model/shift_amount_activity.py'],
 [('EventsContainer.put/get','core/events_container.py'),('Processor.process takes at start, gives at stop','core/processor.py')],
 ['container levels after every simulation event','start and stop entries of the transfer activities'],
 [('container items','level per content id','core/events_container.py')])
p('C02','Container levels stay within zero and capacity',
 "At every instant the level of every container, for every content kind, lies between zero and its capacity, however many processes load from and unload to it. A transfer that finds its origin empty or its destination full when its turn comes is refused with an error and changes nothing.",
 ['programs','schedules','inputs'],ANY+"; any capacities, initial levels and requested amounts",
 "Overflow and underflow need particular combinations of level, amount and competing vessels; the tests use amounts that always fit.",
 ['model/shift_amount_activity.py','core/processor.py','core/events_container.py'],
 [('determine_processor_amount: minimum of amount, content and space','core/processor.py'),('re-check after every resource request','model/shift_amount_activity.py')],
 ['container levels after every simulation event'])
p('C03','Reservations equal level plus planned deposits minus planned withdrawals',
 "The reserved level of every container at every instant equals its actual level plus the planned amounts of all planned transfers into it minus those of all planned transfers out of it, where a transfer counts as planned from the moment it is registered until it takes from its origin or gives to its destination. The planned amount is the requested amount, or, without one, the smaller of the two capacities; once nothing is planned or running, reserved and actual levels are equal.",
 ['programs','schedules','histories'],ANY+"; amounts given, absent, or larger than what can be moved",
 "The tests look at reservations of two fixed models; the ledger must balance for partial loads, loops that register again, and any number of competing transfers.",
 ['core/processor.py','model/shift_amount_activity.py','core/events_container.py'],
 [('make_container_reservation','model/shift_amount_activity.py'),('correction with the actual amount','core/processor.py')],
 ['reserved and actual levels after every simulation event','registration points'])
p('C04','Container conditions fire exactly when the level satisfies them',
 "An event asked from a container for a level threshold (full, empty, greater, at least, less, at most) occurs at the simulation time at which the level first satisfies the condition, at once if it already does, and never while it has not. This holds for every waiter and every content kind, also when thresholds are shared, repeatedly crossed, or asked for again after they stopped holding; no waiter is missed.",
 ['histories','schedules','inputs'],"every history of puts, gets and requests for events on containers with one or more contents",
 "The tests cross a threshold once or twice; lost, stale or premature events need repeated crossings, shared thresholds and several content kinds.",
 ['core/events_container.py','model/base_activities.py'],
 [('get_container_event / update_container_events','core/events_container.py'),('put callback','core/events_container.py')],
 ['event state and simulation time of every container event','container levels'])
p('C05','Resources are used exclusively and in order of request',
 "At every instant no object serves more users than its number of resources, and an activity that moves or processes holds one resource of every object it uses (mover; or processor, origin and destination) from its start until it ends, including its weather and delay time. Waiting activities obtain a resource in the order in which they requested it, and objects without conflicting users never share a resource of capacity one.",
 ['schedules','programs'],ANY+", with sites and equipment of one or more resources shared by many activities",
 "Overlaps appear only under particular arrival orders; the tests have two vessels at one quay.",
 ['model/base_activities.py','model/move_activity.py','model/shift_amount_activity.py','core/resource.py'],
 [('_request_resource','model/base_activities.py'),('HasResource','core/resource.py')],
 ['users and queue of every resource after every simulation event','start/stop entries'])
p('C06','Resources are released on completion unless explicitly kept',
 "When an activity ends, it has released every resource it obtained except those it was told to keep; a kept resource stays with its group of activities, without gaps, until a later activity of that group ends without keeping it. Consequently no resource remains occupied after a simulation in which nothing was kept to the end.",
 ['programs','schedules','histories'],ANY+"; any assignment of kept objects to the activities of a group",
 "One test keeps one resource in one sequence; leaks and early releases depend on which activity keeps which object and on what competes for it.",
 ['model/base_activities.py','model/move_activity.py','model/shift_amount_activity.py'],
 [('_release_resource','model/base_activities.py')],['users of every resource after every simulation event'])
p('C07','Moves take distance over speed and end at the destination',
 "A move takes the given duration, or else the great-circle distance between its end points divided by the speed of the mover, which is its speed function at its fill degree (total content over total capacity) times the engine order. The mover stays where it was until the move stops and is then exactly at the destination, and its position changes in no other way.",
 ['inputs','programs','histories'],"every mover type, position, speed function, fill degree, engine order and preceding history",
 "The tests check durations of a few fixed trips at engine order one.",
 ['core/movable.py','core/locatable.py','model/move_activity.py'],
 [('Movable.move','core/movable.py'),('compute_duration / v','core/movable.py')],['positions after every simulation event','start/stop entries of moves'])
p('C08','A transfer moves the largest feasible amount, and only in place',
 "The amount transferred is the smallest of the requested amount, the content of the origin and the free space of the destination, of the named content kind, and is positive. A transfer whose processor, origin and destination are not at the same place (within 100 m), or that has neither a duration nor a phase, raises an error and moves nothing.",
 ['inputs','programs','histories'],"every origin, destination, processor, requested amount, content kind, position and fill state",
 "The tests use a handful of amounts and never probe the position limit or competing content kinds.",
 ['core/processor.py','model/shift_amount_activity.py','core/locatable.py'],
 [('determine_processor_amount','core/processor.py'),('is_at checks','model/shift_amount_activity.py')],['container levels','exceptions','positions'])
p('C09','Processing time follows from amount, rate and manoeuvring',
 "A transfer lasts its given duration if it has one; otherwise its loading (or unloading) phase lasts the transferred amount divided by the processor's loading (or unloading) rate plus the manoeuvring time of that phase in minutes. If the rate is a function it is applied to the level of the loaded (or unloaded) container before and after the transfer of that content kind.",
 ['inputs','programs'],"every rate (number or function), manoeuvring time, phase, amount and content kind",
 "The tests use constant rates on a few amounts; no test uses a rate function.",
 ['core/processor.py','model/shift_amount_activity.py'],
 [('LoadingFunction.loading','core/processor.py'),('UnloadingFunction.unloading','core/processor.py')],['start/stop entries of transfers','container levels'])
p('C10','Activity logs are complete, paired and chronological',
 "The log of every activity is a succession of executions, each with exactly one start and one later-or-equal stop, waiting entries in start-stop pairs, and, for composite activities, a start-stop pair for every execution of every sub-activity inside it. All entries carry the activity's own id and non-decreasing timestamps, and every entry other than waiting is written at the simulation time it states.",
 ['programs','schedules','histories'],ANY+", with waits, weather, delays, loops and nesting",
 "The tests compare logs of fixed models; pairing and order must survive any nesting, zero durations and simultaneous events.",
 ['core/log.py','model/base_activities.py','model/basic_activity.py','model/parallel_activity.py','model/sequential_activity.py','model/while_activity.py'],
 [('log_entry_v1','core/log.py')],['logbooks after every simulation event'])
p('C11','Object logs record exactly what happened, with the true state',
 "Every object's log has exactly one start and one stop entry, with the activity's id and at its start and stop times, for each move it makes, each transfer it takes part in as processor, origin or destination, and each (possibly waiting) activity that names it as additional log, and no other entries. The recorded state is the object's true state at that moment: the position, and the levels of all contents just before the transfer in the start entry and just after it in the stop entry.",
 ['programs','schedules','histories'],ANY,
 "The tests look at single columns of the logs of fixed models; state snapshots under concurrency are not tested.",
 ['core/log.py','core/processor.py','core/movable.py','core/container.py','core/locatable.py','model/basic_activity.py'],
 [('get_state chain','core/log.py'),('log entries of process and move','core/processor.py')],['logbooks','levels and positions after every simulation event'])
p('C12','A basic activity starts when allowed and lasts its duration',
 "A basic activity starts at the moment it is triggered and its start condition has occurred (after its pre-processing, if any), lasts exactly its duration, and then ends, in every execution. Waiting is recorded if and only if its condition occurs later than its trigger, from the trigger to that moment.",
 ['programs','inputs','schedules'],ANY+"; any durations including zero",
 "The tests check a few start times; this must hold for every execution within loops, nesting and simultaneous events.",
 ['model/basic_activity.py','model/base_activities.py'],[('main_process_function','model/basic_activity.py'),('delayed_process','model/base_activities.py')],['activity logs'])
p('C13','A sequence runs its sub-activities one after the other',
 "In every execution of a sequential activity each sub-activity runs exactly once, in the listed order, becoming ready at the very time the previous one has ended (including its delays), the first when the sequence starts. The sequence stops exactly when its last sub-activity has ended.",
 ['programs','schedules'],ANY+", any nesting and length",
 "The tests run short flat sequences; nesting in loops and parallels and waiting sub-activities change which event triggers the next.",
 ['model/sequential_activity.py','model/base_activities.py'],[('register_sequential_subprocesses','model/base_activities.py')],['logs of the sequence and of its sub-activities'])
p('C14','A parallel activity forks together and joins on the last',
 "In every execution of a parallel activity each sub-activity runs exactly once and becomes ready at the time the parallel activity starts. The parallel activity records each sub-activity's stop at the time that one ended and stops exactly when the last has ended.",
 ['programs','schedules'],ANY+", including equal end times, zero durations and re-execution inside loops",
 "Join bookkeeping depends on the order and simultaneity of completions; the tests have two branches with one completion order.",
 ['model/parallel_activity.py','model/base_activities.py'],[('register_parallel_subprocesses','model/base_activities.py'),('join loop','model/parallel_activity.py')],['logs of the parallel activity and of its sub-activities'])
p('C15','A repeat runs its sub-activities exactly the given number of times',
 "Every execution of a repeat activity runs its list of sub-activities in sequence exactly as many times as specified, each iteration starting at the time the previous one ended, with every sub-activity executed exactly once per iteration, including nested loops in full. It stops exactly at the end of the last iteration.",
 ['programs','schedules','inputs'],ANY+", nested repeats and whiles",
 "The tests repeat a flat list; nested loops have to re-arm every level.",
 ['model/while_activity.py','model/base_activities.py','model/helpers.py'],[('ConditionProcessMixin','model/while_activity.py'),('register_processes','model/helpers.py')],['logs of the repeat and of its sub-activities'])
p('C16','A while stops after the first iteration that ends with its condition met',
 "A while activity runs its sub-activities in sequence at least once and starts another iteration, at the time the previous one ended, exactly if its stop condition has not occurred between its own start and the end of that iteration. A condition that occurred at any moment during the loop stops it even if it no longer holds, and the loop's stop coincides with the end of its last iteration.",
 ['programs','schedules','histories'],ANY+"; container, time and activity conditions and their combinations",
 "The tests stop loops on one full or empty container; transient, combined and nested conditions and re-execution inside other loops are untested.",
 ['model/while_activity.py','model/base_activities.py','core/events_container.py'],[('static and reactive condition','model/while_activity.py')],['logs of the while and of its sub-activities','container levels'])
p('C17','Start conditions are honoured: all for lists and and, any for or',
 "An activity never starts before it is triggered and its start condition has occurred since it was registered, and it proceeds at that very time: a list or an and needs all of its members, an or any one of them, a time the simulation time to reach it, an activity (by name or id) its current execution to have ended, and a container the level to have satisfied the threshold. A condition that never occurs keeps the activity from ever starting.",
 ['programs','inputs','schedules'],"every nested expression over times, activities, containers and simpy events, in any nesting and loop",
 "The tests use single conditions and one combination; expressions nest and their members occur in any order.",
 ['model/base_activities.py','core/events_container.py'],[('parse_expression','model/base_activities.py'),('delayed_process','model/base_activities.py')],['activity logs','container levels'])
p('C18','Every registered activity runs once, whatever the order of registration',
 "After registering a set of activity trees, every activity in them is executed exactly once per execution of its parent (top-level ones once) in any listing order, also when start conditions refer to activities listed later. Duplicate names and circular references between start conditions are rejected with an error.",
 ['programs','configurations'],"every forest of activities and every permutation of it, with forward references by name or id",
 "The tests register a few models in one order.",
 ['model/helpers.py','model/base_activities.py'],[('register_processes retry loop','model/helpers.py'),('get_subprocesses','model/helpers.py')],['activity logs','exceptions'])
p('C19','A single run process moves everything it is asked to',
 "A single run process repeats sail empty, load, sail full, unload, in that order, with the given mover, loader and unloader, until its stop condition has occurred, by default the origin being empty or the destination full. With the default and one vessel it therefore moves exactly the minimum of the origin's content and the destination's space in the smallest number of trips the vessel's capacity allows, and leaves the vessel empty whenever the destination has room.",
 ['inputs','programs'],"every origin content, destination space, vessel capacity, rate, distance, start and stop condition",
 "One test runs one combination.",
 ['model/single_run_process.py','model/while_activity.py','model/shift_amount_activity.py','model/move_activity.py'],[('single_run_process','model/single_run_process.py')],['logs','levels'])
p('C20','No activity waits while everything it needs is available',
 "An activity whose trigger and start condition have occurred proceeds at that simulation time unless an object it needs has all its resources in use or the contents do not allow the transfer; each wait ends at the time the last obstacle disappears. A model in which every condition eventually occurs and resources are released runs to completion within a bounded number of events.",
 ['schedules','programs'],ANY+" without circular waiting",
 "Lost wake-ups and idle waits need particular competition for resources and content; the tests have few competitors.",
 ['model/shift_amount_activity.py','model/move_activity.py','model/base_activities.py','core/events_container.py'],[('wait for content then resources','model/shift_amount_activity.py')],['resource users and queues, levels and logs after every event'])
p('C21','The same model gives the same simulation',
 "Running the same model again, in the same or another Python process, gives the same end time, the same final levels and positions, and the same log, entry by entry, for every object and activity, independent of hash seeds and generated ids.",
 ['programs','configurations','schedules'],ANY+"; hash seeds, process instances, explicit or generated ids",
 "Tests run under one hash seed; order dependence shows only across processes and with simultaneous events.",
 ['model/helpers.py','model/base_activities.py','core/processor.py','core/events_container.py'],[('ordered registration','model/helpers.py')],['digests of all logs over processes with different hash seeds'])
p('C22','Weather limited work starts at the first moment of a workable window',
 "An activity with a weather criterion starts, counted from when it is otherwise ready, at the earliest time from which, after the window delay, the record stays within the limit for the window length; if that is later, the wait is recorded as waiting on weather. Workable windows run from the first sample within the limit to the next sample beyond it and must be longer than the window length; beyond its end the record repeats with its own period; the record itself is left as it was.",
 ['inputs','programs','histories'],"every record (regular or irregular), maximum or minimum limit, window length, window delay and ready time, in every activity type",
 "The tests use one record with a few criteria and start times within it.",
 ['plugins/weather.py','model/base_activities.py'],[('check_constraint / process_data','plugins/weather.py')],['activity logs'])
p('C23','A delay percentage extends every execution proportionally',
 "An activity with a delay percentage spends, after each execution, that percentage of the execution's own duration (start to stop, not its waiting time) as recorded delay, and whatever follows it starts only after the delay. Other activities are unaffected.",
 ['inputs','programs'],"every percentage including zero, on basic, move, transfer and composite activities, combined with weather and waits",
 "The tests delay a few single activities.",
 ['plugins/delay.py','model/base_activities.py'],[('DelayPlugin.post_process','plugins/delay.py')],['activity logs'])
p('C24','Plugins run in priority order, exactly once around each execution',
 "For each execution of an activity, the pre-processing of every registered plugin runs exactly once, in order of priority (equal priorities in order of registration) and one after the other, after the start condition and before the start; post-processing likewise after the stop and before anything that waits for the activity. Plugins receive the true times at which pre-processing began and at which the activity started.",
 ['programs','inputs','schedules'],"every set of plugins, priorities and processing times, on every activity type",
 "The tests register at most two plugins with fixed priorities.",
 ['model/base_activities.py','model/basic_activity.py','model/move_activity.py','model/shift_amount_activity.py'],[('register_plugin / pre_process / post_process','model/base_activities.py')],['calls of recording plugins','activity logs'])
p('C25','Recorded activities for critical path analysis match the logs',
 "The table of recorded activities contains, for each object and each activity, exactly the intervals its log records, as active or waiting, with the true start, end and duration. Records of the same activity over the same interval share one identifier, and different ones never do.",
 ['histories','programs'],"every completed simulation",
 "The tests check counts for two models.",
 ['critical_path/base_cp.py','plot/log_dataframe.py'],[('combine_logs / reshape_log / add_unique_activity','critical_path/base_cp.py')],['recorded activities table against the logbooks'])
p('C26','Critical path dependencies connect causes to what they start',
 "Every dependency connects two recorded activities such that the first ends exactly when the second starts. Dependencies from recorded activities are exactly the pairs that meet on a common object (or on any object when one of those ending there is waiting); dependencies from the event trace link every recorded activity that does not start with the simulation to the activity whose end triggered it, and no other; the rest of a wait for a time that was set before has no cause.",
 ['histories','programs'],"every completed simulation, with waits, resource competition, weather, delays and loops",
 "The tests check counts for two models.",
 ['critical_path/dependencies_from_recorded_activities.py','critical_path/dependencies_from_simpy_step.py'],[('get_dependency_list','critical_path/dependencies_from_simpy_step.py')],['dependency lists against the logbooks'])
p('C27','An activity is critical exactly if it is on a longest path',
 "In the graph of activities with positive duration and their dependencies, an activity is reported as critical exactly if it lies on a path of maximal total duration (to the end time of the longest path). The reported maximum duration is the length of that path, and invalid graphs (dependencies over a time gap of a second or more) are rejected.",
 ['inputs','histories'],"every consistent set of recorded activities and dependencies",
 "The tests use one model with symmetric vessels; near-ties and several parallel longest paths are untested.",
 ['critical_path/simulation_graph.py','critical_path/base_cp.py'],[('get_list_critical_activities','critical_path/simulation_graph.py')],['critical set against an independent longest path computation'])
p('C28','Tracing for the critical path does not change the simulation',
 "A model simulated in the tracing environment gives the same logs, levels, positions and end time as in a plain environment. The trace contains every processed event once, in order, with its time (except an event that does nothing but end the run), and for every scheduled event the event that scheduled it.",
 ['programs','schedules'],ANY,
 "The tests never compare the two environments.",
 ['critical_path/dependencies_from_simpy_step.py'],[('CriticalPathEnvironment.step','critical_path/dependencies_from_simpy_step.py')],['logs in both environments','trace against an independent recorder'])
p('C29','Exports describe the activity tree and its objects faithfully',
 "The flattened activity tree lists every activity once with its id, name, class, depth and direct parent, so that the tree can be rebuilt from it. The activity, resource and concept tables name for each activity exactly its processor, mover, origin and destination and for each concept its name, id and class, and a written file has the same content.",
 ['programs','inputs'],"every tree of activities (single, list, dict) and set of objects",
 "There are no tests of the exports.",
 ['io.py'],[('get_tree_as_list / get_activities / get_activity_resources / get_concepts','io.py')],['returned tables and written files'])
p('C30','Exported ranges are exactly the executions in the logs',
 "The exported time ranges of an object or activity are exactly the intervals from each start to its own stop in its log, with the right activity, duration in seconds and container levels at both ends, sorted by start time; a last range that has not stopped is kept open only if it is the single one. The activity log export contains these ranges for every activity in the tree with its name and class.",
 ['programs','histories'],"every simulation, completed or cut off, for objects and activities",
 "There are no tests of the exports.",
 ['io.py','plot/log_dataframe.py'],[('get_ranges_dataframe / get_activity_log','io.py')],['returned tables against the logbooks'])
p('C31','Logs, tables and charts show the logbook without loss or change',
 "The columnar log, the log table and the step and Gantt charts contain exactly the logbook's entries: same number of entries, in chronological order and for equal times in the order of the logbook, same timestamps, ids (or the labels they are mapped to), states, object states and labels. In charts every bar spans the start and stop of one recorded activity on its own row, and every step line follows the recorded container levels.",
 ['histories','inputs'],"every simulation and every documented form of id mapping",
 "The tests plot without looking at the result.",
 ['core/log.py','plot/log_dataframe.py','plot/step_chart.py','plot/vessel_planning.py'],[('Log.log','core/log.py'),('get_log_dataframe','plot/log_dataframe.py'),('get_gantt_chart','plot/vessel_planning.py')],['returned tables and figures against the logbooks'])
p('C32','Routes are sailed over their full length at the mover\'s speed',
 "A mover with a route takes the sum of the great-circle lengths of the route's edges, with a path the corresponding part of the path, divided by its speed, in both directions, and ends at its destination; moving off the ends of the route is refused. Sailing node by node passes every edge of the route in order, in the direction of travel, taking the length of each edge divided by the speed and calling the registered functions once per edge.",
 ['inputs','programs'],"every graph, route, path, direction and speed",
 "The routing notebook is not run and the tests cover one path.",
 ['core/movable.py'],[('Routable.compute_distance / move_over_route','core/movable.py')],['positions and simulation times'])
p('C33','Models simulated side by side do not influence each other',
 "Two models that share no objects give each the same logs, levels and positions as alone when they are simulated in one environment, with registries of their own (even with the same names, ids and kinds of content) or with one registry and different names, whether the second one is registered before, after or during the run of the first. The same holds when they are simulated in two environments of one process, in turn.",
 ['programs','schedules','histories'],"every pair of models with disjoint objects, every order of building and registering, every interleaving of two environments",
 "Every test simulates a single model in a fresh environment and looks at that model alone.",
 ['model/base_activities.py','core/events_container.py','model/helpers.py'],
 [('GenericActivity.register_process / parse_expression','model/base_activities.py'),('EventsContainer.get_container_event','core/events_container.py')],
 ['logbooks, container levels and positions of each model'],
 [('registry','activities by name and id','model/base_activities.py'),('container events','events per content, level and operator','core/events_container.py')])
p('C34','Ill-formed conditions and parameters are refused',
 "A start or stop condition with a member that is no condition (unknown type or state, a reference to an activity that does not exist, a missing level or time, an object that is neither an event, a list nor an expression), at any depth and also beside members that are met, makes the simulation fail with an error; the activity never starts, and a loop does not start its sub-activities. A transfer with neither a duration nor a phase of loading or unloading fails as well. Contradicting parameters are refused when they are given: a weather criterion with both limits or none (zero is a limit), a kind of content without id, capacity or level or with a reserved name, an unknown operator, two ids, an incomplete log label, objects of one name in a critical path analysis.",
 ['inputs','programs'],"every expression tree with an ill-formed member, for every activity of every model",
 "The tests try at most one or two ill-formed values at the top of a condition.",
 ['model/base_activities.py','plugins/weather.py','core/events_container.py','core/log.py','core/identifiable.py','critical_path/base_cp.py'],
 [('GenericActivity.parse_expression','model/base_activities.py')],
 ['the error of the run and the logs of the activities'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
TITLES={x['id']:x['title'] for x in P}
