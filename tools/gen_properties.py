#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=list(observe), hook_needed=hook)))

S='src/solver/'; G=S+'genetic/'; I=S+'improvement/'; R=I+'ruin_recreate/'
p('C01','Every reported solution is a valid, capacity-feasible routing',
 'At whatever instant a run is stopped, every solution it has reported as a new best, and the one it hands over at the end, visits every customer of the instance exactly once, names no other node, and loads no route beyond the vehicle capacity. This holds for every sequence of random choices, every clock behaviour, every search phase (initial population, genetic cycle, elite education, restarts) and every supported configuration.',
 ['inputs','schedules','configurations','fault_sequences'],
 'all well-formed instances (1 customer up to several hundred, Euclidean or explicit, loose, tight or infeasible), all random trajectories and hash orders, all stopping instants, all supported configurations',
 'The unit tests cover float comparison and a cooling schedule; the one benchmark solves one instance with one seed and asserts nothing about the solution.',
 [S+'history.rs',S+'evaluate.rs',G+'genetic.rs',G+'split.rs',G+'individual.rs',I+'local_search.rs',R+'mod.rs',R+'ruin.rs',R+'recreate.rs'],
 [('feasibility test before reporting',G+'genetic.rs update_best'),('feasibility test in R&R',R+'mod.rs update_best'),('evaluation of loads',S+'evaluate.rs evaluate')],
 [('history','reported best solutions',S+'history.rs SearchHistory')],['search history after every solver step','solution file of the real program'])
p('C02','The reported cost is the true length of the reported routes',
 'The cost reported with a solution equals the total length of its routes, depot to depot, under the distance metric in force: Euclidean edges, each rounded to the nearest integer when rounding is on, or the explicit matrix of the instance. It is the same whether distances are precomputed or computed on demand and whether the improvement was found globally, in a restart or in a decomposed sub-problem, and the cost line of the solution file is that cost to the nearest integer.',
 ['inputs','schedules','configurations'],
 'all instances and metrics, precomputed or lazy distances, all search trajectories and stopping instants',
 'No test computes the cost of any route; incremental cost updates can drift or be wrong only for particular route shapes that random trajectories reach.',
 ['src/models/matrix.rs',S+'evaluate.rs',S+'history.rs',R+'node.rs'],
 [('distance lookup','src/models/matrix.rs DistanceMatrix::get'),('matrix construction','src/models/matrix.rs DistanceMatrixBuilder::build'),('evaluation',S+'evaluate.rs evaluate')],
 [],['search history','solution file'])
p('C03','The best solution never regresses and no feasible solution is lost',
 'Each reported improvement costs strictly less than every one reported before it, and the solution handed over at the end is the last and cheapest of them. At every step boundary no feasible solution held by the search (working solution, population, education result) is cheaper than the reported best, and none that a move of ruin-and-recreate makes, whether or not the search goes on from it. Restarts, penalty changes and elite education never discard or overwrite the best.',
 ['schedules','histories','configurations'],
 'all random trajectories, restart points, stopping instants and configurations',
 'It is a statement over whole histories with restarts and phase changes; no test looks at the history.',
 [S+'history.rs',G+'genetic.rs',R+'mod.rs'],
 [('update_best',G+'genetic.rs'),('update_best in R&R',R+'mod.rs'),('reset',G+'genetic.rs')],
 [('best_cost','cost of the best reported solution',S+'history.rs')],['search history after every step'])
p('C04','The time limit is honoured in every phase',
 'A run does not end before its time limit unless an iteration budget ends it, and once the limit has passed on its clock it starts no further search step: plain runs stop at the next step boundary, decomposed runs after at most one further education step and a bounded batch of ruin-and-recreate moves. This holds wherever the deadline falls (education, initial population, genetic cycle, global or sub-problem search) and however the clock advances: slowly, in bursts, in large jumps, or standing still for a while. A run whose limit is zero reports no solution.',
 ['schedules','fault_sequences','configurations'],
 'all placements of the deadline relative to the work, all clock behaviours (rate, stall, jump), all phases and configurations',
 'A test on a real clock can only sample a deadline in the fast path; nothing controls where the deadline falls.',
 [S+'context.rs',S+'solver.rs',G+'genetic.rs',G+'decomposition.rs','src/main.rs'],
 [('terminate',S+'context.rs'),('Terminated state',G+'genetic.rs iterate'),('run loop',S+'solver.rs')],
 [('start_time','start of the run',S+'history.rs')],['simulated time and amount of work at every step'])
p('C05','Iteration budget and restarts follow their counts exactly',
 'With a budget of N generations the genetic search performs exactly N generations and then ends by itself. When more than the configured number of generations has passed since the last improvement in the current epoch, and only then, the population is rebuilt from scratch, and the search continues.',
 ['histories','schedules','configurations'],
 'all budgets, restart thresholds and improvement histories',
 'It depends on when improvements happen in a random run; no test runs a restart.',
 [G+'genetic.rs',S+'context.rs'],
 [('terminate',S+'context.rs'),('reset',G+'genetic.rs')],[('iteration','generations so far',S+'context.rs')],['counts of generations and population rebuilds'])
p('C06','A deterministic run depends only on instance, settings and seed',
 'With deterministic mode on, two runs with the same instance, settings and seed report the same sequence of improving solutions and final solution, whatever the pace of the clock, operating-system entropy, memory contents and layout, or the way input arrives in chunks. A run cut short by its deadline reports a prefix of what the longer run reports up to that moment.',
 ['schedules','fault_sequences','configurations'],
 'all environments (clock, entropy, heap garbage, address layout, I/O chunking) for each instance, configuration and seed; time-based elite education is excluded, as it is defined by the clock',
 'A divergence needs a tie broken by hash order or stale memory; a test that runs twice in one process sees the same environment twice.',
 ['src/utils/random.rs',R+'mod.rs',I+'local_search.rs',G+'population.rs',G+'decomposition.rs',S+'context.rs'],
 [('seeded generator','src/utils/random.rs'),('seeded hash state','src/utils/random.rs random_state')],[],['full history and search state of paired runs'])
p('C07','Reading an instance is all-or-nothing under I/O faults',
 'However the bytes of an instance file arrive (short reads, interrupted calls), the loaded problem is exactly the one in the file. If a read fails, or the file ends before all the records its header announces, the load fails with an error; it never hangs and never goes on with a smaller or different problem.',
 ['fault_sequences','inputs'],
 'all well-formed instance files, all chunkings and interruptions, all positions of a read error or of a cut before the last record',
 'Tests read one intact file from a healthy disk.',
 ['src/utils/parser.rs'],
 [('read_file','src/utils/parser.rs'),('section parsers','src/utils/parser.rs')],[],['parsed problem, or failure, in process and exit status of the program'])
p('C08','Settings in force: command line over config file over defaults',
 'Every setting of a run has the value given on the command line if it was given there, else the value in config.yml, else its default; keys the file does not mention keep their defaults and unknown keys are ignored. This holds however the config file is delivered (short or interrupted reads); if reading it fails the run stops with an error instead of running with other settings.',
 ['configurations','fault_sequences'],
 'all combinations of command-line options and config keys, all read faults on the config file; effects observed on simulated time, metric, output path and iteration counts of the whole program',
 'No test runs the program or parses a configuration with overrides.',
 ['src/cli.rs','src/config.rs','src/main.rs'],
 [('update_from_args','src/config.rs'),('update','src/config.rs'),('Args::parse','src/cli.rs')],[],['behaviour of the whole program in simulated time'])
p('C09','The solution file is exact, or the run says it failed',
 'When a run exits successfully its solution file holds exactly the final best solution: the non-empty routes, numbered from 1 in order, a cost line, nothing else and nothing left over from an older file; it is empty if no feasible solution was found. Short or interrupted writes do not change that; if opening or writing the file fails the exit status is a failure; and if the process is killed during the write the file holds only a prefix of the right content. A later run over any such left-over produces its own exact file.',
 ['fault_sequences','crash_points','inputs'],
 'all write faults (short, interrupted, disk full, I/O error, denied open) at every write, all kill points, all prior file contents',
 'Nothing tests the writer; faults and kills need an environment that injects them.',
 ['src/utils/serializer.rs',S+'history.rs','src/main.rs'],
 [('write_solution_file','src/utils/serializer.rs'),('Display of a solution',S+'history.rs')],[],['bytes of the file and exit status of the real program'])
p('C10','Every well-formed instance is solved to its budget without crash or hang',
 'For every well-formed instance with at least one customer, including one- and two-customer instances, coincident points, zero demands, single-route, tight and infeasible ones, and for every supported configuration, a run makes progress until its budget ends it: it never crashes and never stops making progress. When demands are small against the capacity a feasible solution is reported within the first few hundred generations, once the penalty has had time to adapt; when some demand exceeds the capacity none is ever reported.',
 ['inputs','configurations','schedules'],
 'all well-formed instances, supported configurations and random trajectories; progress is measured in simulated work',
 'The tests never construct an instance; the benchmark runs one.',
 [G+'genetic.rs',G+'split.rs',I+'local_search.rs','src/models/matrix.rs',R+'ruin.rs'],
 [('crossover',G+'genetic.rs'),('neighbour lists','src/models/matrix.rs'),('local search loop',I+'local_search.rs')],[],['outcome of every run against a work budget'])
p('C11','Memory contents and allocation failures never influence a result',
 'No run reads or writes outside the memory it owns: its results do not depend on what freed or neighbouring memory contains, and it never alters neighbouring memory. If an allocation fails, the run stops with an out-of-memory error instead of continuing on bad memory or producing a solution.',
 ['fault_sequences','inputs','configurations'],
 'all contents and placements of the heap, all allocation-failure points, all instances and configurations',
 'Neighbour memory is usually benign in a test; allocations do not fail there.',
 ['src/models/matrix.rs',I+'local_search.rs',I+'linked_list.rs',I+'moves/swap_star.rs'],
 [('unchecked matrix access','src/models/matrix.rs Matrix'),('raw-pointer lists',I+'linked_list.rs')],[],['guarded heap, paired runs under different heap contents, injected allocation failures'])
p('C12','Decomposition conserves customers and keeps what the sub-search found',
 'Cutting a sub-problem out of a global solution and merging its result back leaves a global solution in which every customer appears exactly once with demands, positions and distances unchanged, and whose giant tour goes through the routes in order of the direction of their centres from the depot. A sub-problem consists of whole routes, the nearest to one of the customers, until they have the configured number of customers; each customer is as likely to be that one. The sub-problem result is the best feasible solution its search found, so a merge never makes a feasible global solution worse. Decomposed runs complete like any other run, whatever number of routes the sub-search ends with and wherever the deadline falls.',
 ['inputs','schedules','configurations'],
 'all global solutions, sub-problem sizes, random trajectories and deadlines',
 'No test or benchmark enters the decomposed mode, which needs 3000 customers by default.',
 [G+'decomposition.rs',S+'context.rs','src/models/problem.rs','src/models/matrix.rs'],
 [('decompose_global',G+'decomposition.rs'),('finish',G+'decomposition.rs'),('from_mapping',S+'context.rs')],[],['decomposition driven step by step and whole decomposed runs'])
p('C13','Improvement procedures conserve customers and never worsen a solution',
 'Local search and ruin-and-recreate return a solution with exactly the customers they were given, whose cost, with overload penalised at the penalty they worked with, is not higher than that of the solution they were given. At every point the loads, lengths and costs they maintain incrementally agree with a recomputation from the routes, and after every recreate no customer is left unassigned.',
 ['inputs','schedules','configurations'],
 'all starting solutions, move orders, random choices, penalty levels and move selections',
 'Individual move formulas are exercised only by the benchmark, which checks nothing; a wrong one shows only on particular adjacencies.',
 [I+'local_search.rs',I+'moves/relocation.rs',I+'moves/swap.rs',I+'moves/swap_star.rs',I+'moves/two_opt.rs',R+'mod.rs',R+'node.rs',R+'recreate.rs',R+'ruin.rs'],
 [('delta evaluation',I+'moves/*.rs'),('route update',I+'local_search.rs update_route'),('best tracking',R+'mod.rs search')],[],['penalised cost before and after each procedure; bookkeeping between R&R moves'])
p('C14','Time-based elite education uses its share of the time limit',
 'When elite education is time-based it ends once its configured fraction of the time limit has elapsed on the run\'s clock, within a bounded batch of moves, and not before; then the genetic search starts. This holds for every clock behaviour, and if the run\'s own deadline falls first that deadline wins.',
 ['schedules','fault_sequences','configurations'],
 'all fractions, limits and clock behaviours (rate, stall, jump)',
 'The one test on the time schedule fails on a real clock, as it depends on it.',
 [R+'schedule.rs',R+'mod.rs',G+'genetic.rs'],
 [('TimeSchedule',R+'schedule.rs'),('setup_elite_education',R+'mod.rs')],[],['simulated time at which the phase changes'])
p('C15','Solvers do not influence each other',
 'Several solvers used in the same process, with their steps interleaved in any order and created, moved, or dropped at any point, each report exactly what they would have reported alone.',
 ['schedules','histories'],
 'all interleavings of steps, creations and drops of several deterministic solvers',
 'Tests run one solver; shared hidden state shows only under interleaving.',
 [S+'context.rs','src/utils/random.rs',I+'local_search.rs',R+'mod.rs'],
 [('per-context state',S+'context.rs'),('context pointers refreshed per call',I+'local_search.rs run')],[],['histories of interleaved and solo runs'])
p('C16','Contest mode prints every improvement completely and in order',
 'In the contest build every improvement is printed to standard output, in full and in order, when it is found, in the format of the solution file. If the run is killed at any moment, or standard output accepts only part of a write at a time, what has been printed is a sequence of complete, valid, strictly improving solutions followed by at most one cut one.',
 ['crash_points','fault_sequences','schedules'],
 'all kill points and short or interrupted writes on standard output; plain and decomposed runs',
 'The feature is only type-checked; nothing runs it.',
 [S+'history.rs',G+'decomposition.rs'],[('print on improvement',S+'history.rs add')],[],['standard output of the contest build'])
p('C17','The population stays bounded, ordered, separated and keeps its best',
 'At every step the feasible and the infeasible part of the population contain only solutions of their kind, each a complete routing, sorted by cost, and never more than minimum size plus generation size members; reaching that size shrinks the part to the minimum size. No part holds the same routes twice, driven in whatever direction. The cheapest member of a part is never removed to make room for a more expensive one.',
 ['histories','schedules','configurations'],
 'all sequences of insertions, removals and penalty changes that random runs produce',
 'The population evolves over hundreds of random insertions; no test inserts one.',
 [G+'population.rs',G+'genetic.rs'],
 [('add_individual',G+'population.rs'),('natural_selection',G+'population.rs')],[],['population after every step'])
p('C18','The overload penalty adapts in the right direction and stays in range',
 'At every penalty update of the genetic search the overload penalty rises by its increase factor if the feasible share of the last hundred solutions improved (counted as feasible before there are that many) is more than five points below target, falls by its decrease factor if more than five points above, and is otherwise unchanged; it always stays within its fixed bounds, during elite education too, and infeasible members are re-costed at the new penalty. It changes at no other time, except that elite education, which adapts it on its own, restores the instance\'s initial penalty when it ends.',
 ['histories','schedules','configurations'],
 'all feasibility histories random runs produce, all targets, factors and intervals',
 'Feedback control over a random history; nothing tests it.',
 [G+'genetic.rs',S+'context.rs',R+'mod.rs'],
 [('update_penalty',G+'genetic.rs'),('reset_penalty',S+'context.rs')],[],['penalty after every step against a reference controller'])
p('C19','Local search stops only in a local optimum',
 'When local search stops, no enabled relocation, swap or 2-opt move that links a customer with one of its nearest customers (as many of them as the configured granularity), or puts it, where that neighbour comes first on its route, directly behind the depot, lowers the penalised cost of the result. Once the search has changed the solution, no enabled move into an empty route lowers it either; and with SWAP* on and unrounded straight-line distances, no exchange of two customers between two routes that surround each other, each put anywhere in the other route, and no such move of one customer. This holds in whatever random order the moves were tried, and whatever the same local search was used for before.',
 ['schedules','inputs','configurations','histories'],
 'all starting solutions, visiting orders, penalty levels, move selections and earlier uses of the same search',
 'Which pairs are retested depends on the random order and on time stamps kept between improvements; nothing tests it.',
 [I+'local_search.rs',I+'moves/relocation.rs',I+'moves/swap.rs',I+'moves/two_opt.rs','src/models/matrix.rs'],
 [('retest rule',I+'local_search.rs search'),('neighbour lists','src/models/matrix.rs CorrelationMatrix')],[],['result of local search against brute-force move evaluation'])
p('C20','Splitting a giant tour is optimal, whatever was split before',
 'For a given order of customers and a given penalty, the routes the splitter makes have the least penalised cost of all ways to cut that order into consecutive routes that load no route beyond the configured multiple of the capacity, using at most the allowed number of vehicles. If no such cut exists, the load limit does not apply. The outcome depends only on the order, the penalty and the fleet, not on what the same splitter was used for before.',
 ['histories','inputs','configurations'],
 'all sequences of splits by one splitter: customer orders, penalties and fleet limits, linear or quadratic algorithm',
 'The splitter keeps its tables between calls and is fed random orders; nothing tests it.',
 [G+'split.rs'],[('linear split',G+'split.rs'),('limited fleet',G+'split.rs')],[],['split result against dynamic programming and against a fresh splitter'])
p('C21','Instance texts mean what the benchmark library format says',
 'Whatever the order of header lines and sections and the use of blanks, tabs, colons, line ends and number forms, and however the text is delivered, dimension, capacity, coordinates, demands and lower-row matrices (one row per line) are read as written. A text with an unknown edge-weight type or format, without one of its parts, or with something that is no number is refused.',
 ['inputs','fault_sequences'],'all intact instance texts and deliveries; all unsupported types and formats','Nothing tests the parser.',
 ['src/utils/parser.rs'],[('parse','src/utils/parser.rs')],[],['parsed problem and distances, in process'])
p('C22','The browser interface runs the library and returns each improvement once',
 'Driven call by call through the browser interface (add nodes, set the capacity, change settings, load, step, clear), the search is the library search of exactly that problem under the default settings and those changed before it was loaded. A step that finds a solution cheaper than all returned since the problem was loaded returns the best one, complete, valid and with its cost; every other step returns null, and after the time limit no step does any work. Clearing drops the problem, its search and its best cost and keeps the settings; a problem loaded later starts afresh; settings changed after loading take effect at the next load; several solvers do not influence each other.',
 ['histories','schedules'],'all call sequences on any number of solvers, all settings the interface offers, all clocks','Nothing builds it: the feature is off in every test.',
 ['src/wasm/mod.rs','src/solver/context.rs'],[('iterate','src/wasm/mod.rs'),('load_problem','src/wasm/mod.rs'),('clear','src/wasm/mod.rs')],[],['what each call returns'])
p('C23','The contest script runs the solver as asked',
 'HGSRR-DIMACS.sh INSTANCE ROUNDED LIMIT runs the solver on exactly that instance, with distances rounded if ROUNDED is 1 and not rounded if it is another number, and with that time limit, whatever config.yml says about the two; it prints what the run prints, leaves its solution file, and ends with its exit status, a kill included. With an argument missing, a limit that is not a positive whole number or an instance that cannot be read it fails, and neither prints nor leaves a solution.',
 ['inputs','crash_points','configurations'],
 'all argument lists (paths with blanks and wildcards too), config files, and faults of the run it starts',
 'Nothing runs the script.',
 ['HGSRR-DIMACS.sh','src/cli.rs','src/config.rs'],[('arguments','HGSRR-DIMACS.sh'),('override',"src/config.rs update_from_args")],[],['standard output, exit status and solution file of the script'])
p('C24','Search settings are obeyed',
 'Local search works on every new individual if it is enabled and never if it is not, and tries no kind of move that is turned off. Ruin-and-recreate mutates individuals with the configured probability, each with exactly its factor times the number of customers moves. Infeasible individuals, and no others, are repaired by local search at ten times the penalty with the configured probability. Elite education takes place at the start of each epoch if and only if it is on and the instance is above its size limit, with exactly its factor times the number of customers moves where it is not time-based. A ruin removes at least one customer, and from one route at most a string of the configured length. The search goes on from a better result always and from a worse one with probability exp(-worsening/temperature), the temperature falling from its configured start to zero on the documented curve. An epoch starts with the configured number of initial individuals. A deterministic run draws its random choices from its seed alone, other seeds giving other choices; two runs that are not deterministic do not make the same.',
 ['configurations','schedules','histories'],
 'all combinations of switches, probabilities, factors, temperatures and limits; all random choices; any number of epochs',
 'Probabilities and counts show only over many individuals; the one test of the cooling schedule looks at the curve alone.',
 [G+'genetic.rs',R+'mod.rs',R+'schedule.rs',R+'ruin.rs',I+'moves/mod.rs',I+'local_search.rs','src/config.rs'],
 [('educate',G+'genetic.rs'),('acceptance',R+'schedule.rs'),('Moves::new',I+'moves/mod.rs')],[],['moves weighed, ruins, recreates and what the search goes on from'])
p('C25','Parents, children and survivors are chosen by the rules of the algorithm',
 "After every step each member's fitness is its rank by cost in its part of the population, scaled to 0..1, plus, once the part has more members than the configured number of elites, its rank by mean distance from the configured number of nearest members (largest first), scaled likewise and weighted with 1 - elites/size. The distance of two solutions is the number of links to a next customer or, at the start or end of a route, to the depot that the older has and the newer has not, whatever the direction of their routes. A new solution is kept unless its distance from a member is zero; a part that has reached its largest size loses, one after the other, the member of worst fitness apart from the cheapest, until it has its least size. Parents are winners by fitness of tournaments of the configured size among all members of both parts; a child has a stretch of at least two customers of its first parent in their places and the others, from behind the stretch on, in the order of the second, and before it is improved it has no more routes than the first parent or the lower bound. Initial tours are uniformly random, and the giant tour of a member goes through its routes in order of the direction of their centres from the depot.",
 ['histories','schedules','configurations'],
 'all populations, sizes, elites, tournament sizes and histories of additions, removals, penalty updates and restarts that random searches produce',
 'The rules act over hundreds of random insertions and choices; no test makes one.',
 [G+'population.rs',G+'individual.rs',G+'genetic.rs'],
 [('update_fitness',G+'population.rs'),('natural_selection',G+'population.rs'),('tournament',G+'population.rs'),('crossover_ox',G+'genetic.rs'),('calculate_broken_pairs_distance',G+'individual.rs')],[],['population and child after every step'])
p('C26','Ruin takes strings near one customer, recreate inserts at least cost',
 'A ruin picks a customer at random, each alike, and goes through its other customers from the nearest on; each one whose route it has not touched yet makes it touch that route, up to a number of routes drawn between one and the published maximum for the configured average number of customers, and it removes there between one and the largest length (the smallest of configured string length, rounded mean number of customers on all routes, and length of the route; at least one) with every length equally likely: half of the time as one string with that customer, otherwise, where the route is longer, from a longer string with it of which a middle part stays, ever longer with probability 0.99 up to the whole route. Recreate puts the removed customers back one after the other, in random order or in the order of demand (4 of 11 times each), farthest from the depot first (2 of 11) or nearest first (1 of 11), each at the place of least added length in the routes the ruin or an earlier customer has touched and that have room for it; if there is none, at the place of least added length plus penalty for the load above capacity in any route. All other customers keep route and order.',
 ['histories','schedules','configurations'],
 'all solutions, penalties, ruin settings and random choices of ruin-and-recreate, in its own searches and within whole genetic searches',
 'Both procedures are random choices over the routes a long search has made; nothing tests them.',
 [R+'ruin.rs',R+'recreate.rs',R+'node.rs'],[('ruin',R+'ruin.rs'),('recreate',R+'recreate.rs'),('delta_distance',R+'node.rs')],[],['routes before and after every ruin and recreate'])
p('C27','Log and history tell the truth about a run, at once, and never change it',
 'Every improvement is recorded with the time since the start of the run (loading the instance included) at which it was found, recorded times never fall, and each improvement and each restart leaves one message of that moment. The program, at its default log level, writes one line per improvement as soon as it is found, in order, each with its time and cost, so that a run stopped at any moment has logged all it had found before; it also names the instance file, the algorithm that runs and the seed, and ends with one line with the total time. (Decomposed runs log those of their sub-searches in between.) No log level and no short, interrupted or failing write of the log changes the search, the solution file, standard output or the exit status.',
 ['histories','schedules','fault_sequences'],
 'all instances, settings, clocks, log levels, moments of being stopped and faults of standard error',
 'The order and time of lines depend on when improvements come in long runs and on the clock; no test reads the log.',
 ['src/main.rs',S+'context.rs',S+'history.rs',G+'population.rs'],[('main','src/main.rs'),('SearchHistory','src/solver/history.rs')],[],['standard error of the program','SearchHistory entries and messages'])
p('C28','Memory stays bounded in runs of any length and is given back afterwards',
 'However many generations, restarts, educations, decompositions and improvements a search has behind it, between two steps it holds no more memory than its largest population (as configured) and its own tables need, plus one short note for every improvement and restart. When the solver and its context are dropped, at whatever point of the search, in either order, all of it has been given back.',
 ['histories','schedules','configurations'],
 'all lengths and histories of searches, plain and decomposed, all configurations and moments of being dropped',
 'Growth shows only over tens of thousands of generations or many restarts and sub-searches; tests run one short search.',
 [G+'population.rs',G+'genetic.rs',G+'decomposition.rs',S+'history.rs','src/models/matrix.rs',I+'local_search.rs'],[('remove_diversity',G+'population.rs'),('remove_previous_data',S+'history.rs'),('Matrix::drop','src/models/matrix.rs')],[],['bytes allocated and not freed after every step and after the drop'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
try:
    import jsonschema
    sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for x in P: jsonschema.validate(x,sch)
    print('valid',len(P))
except ImportError: print(len(P))
