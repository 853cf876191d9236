# executed by props_src.py
TESTS_SIM = ("The existing tests run a few long random simulations at one or two parameter sets and compare averages with a "
             "loose tolerance; they cannot reach every order of arrivals, completions, blockings and phase ends.")
BND = "Bounded: all real-valued durations, every order of events, runs of the stated number of events from the empty system. "
TRUST = "Trusts the executor (exact reals, not IEEE rounding) and the reference model; no ties in time; samplers stubbed (their laws are D01)."

prop("Q01", "Conservation of jobs and buffer limit in the single-node simulator",
     "In the simulator of a multi-server first-come-first-served queue, after every event the number of arrived jobs equals served plus blocked plus waiting plus in service, and the reported counters (arrived, served, blocked, in system, free servers) describe exactly the jobs present. "
     "A job is blocked if and only if it finds no server available to it and the waiting room, when limited, is full; a server is never idle while a job waits unless the system is warming up or cooling down. "
     "Waiting jobs start in the order of arrival, whichever queue container is selected, and a run for N served jobs stops right after the N-th departure.",
     HIST, "every sequence of events and all durations, 1-3 servers, unlimited, zero and small waiting rooms, either queue container",
     TESTS_SIM, [SIM + "qs_sim.py", SIM + "utils/qs_queue.py", SIM + "utils/servers.py"],
     [("event selection", "QueueingSystemSimulator.run_one_step"), ("admission", "arrival / send_task_to_queue / send_task_to_channel"),
      ("release", "serving / send_head_of_queue_to_channel")],
     BND + TRUST)

prop("Q02", "Waiting- and sojourn-time moments are the sample moments of the history",
     "At any point of a run of the single-node simulator the reported first three moments of the sojourn time are the averages of the powers of (departure minus arrival) over all jobs served so far. "
     "The reported moments of the waiting time are the averages of the powers of (start of service minus arrival) over all jobs taken into service so far, jobs served at once counting as zero.",
     HIST, "every sequence of events and all durations, 1-3 servers, unlimited or small waiting rooms, with and without warm-up and cooling",
     TESTS_SIM, [SIM + "qs_sim.py", SIM + "utils/stats_update.py", SIM + "utils/servers.py"],
     [("running moments", "refresh_moments_stat"), ("waiting time", "send_head_of_queue_to_channel, send_task_to_channel")],
     BND + TRUST)

prop("Q03", "Reported state probabilities are the time shares of the states",
     "At any event of a run of the single-node simulator the reported probability of j jobs in the system is the fraction of the elapsed time during which exactly j jobs (waiting and in service) were present. "
     "Consequently the probabilities are non-negative and sum to one, whatever blocking or warm-up happened.",
     HIST, "every sequence of events and all durations, 1-3 servers, unlimited or small waiting rooms, with and without warm-up and cooling",
     TESTS_SIM, [SIM + "qs_sim.py"], [("time accounting", "p, t_old in arrival/serving/on_end_*"), ("normalisation", "get_p")],
     BND + TRUST)

prop("Q04", "Busy-period moments are those of the intervals with all servers busy",
     "The single-node simulator's reported busy-period moments are the sample moments of the completed maximal intervals during which all servers are busy, one observation per such interval. "
     "A server that is released and at once taken by a waiting job does not interrupt the interval.",
     HIST, "every sequence of events and all durations, 1-3 servers, unlimited or small waiting rooms, with and without warm-up",
     TESTS_SIM, [SIM + "qs_sim.py"], [("start and end of the period", "send_task_to_channel, send_head_of_queue_to_channel, serving"),
                                      ("moments", "refresh_ppnz_stat")],
     BND + TRUST)

prop("Q05", "Warm-up, cooling and delayed cooling follow their definition",
     "In the single-node simulator a job arriving to an empty switched-off system starts a warm-up, during which all arrivals wait; when the system empties, cooling starts (after the delay if one is set, unless an arrival calls it off), and jobs arriving during cooling wait until cooling, and then any warm-up, is over. "
     "The reported shares of time spent in warm-up, cooling and delay, the numbers of starts of each, and the number of warm-ups caused by the end of a cooling are those of the history. "
     "At the end of a warm-up (or of a cooling without warm-up) the waiting jobs fill all servers in order of arrival.",
     HIST, "every sequence of events and all durations, each sensible combination of the three phases, 1-2 servers",
     TESTS_SIM, [SIM + "qs_sim.py", SIM + "utils/phase.py"],
     [("phase machine", "arrival, serving, on_end_warming, on_end_cold, on_end_cold_delay"), ("phase bookkeeping", "QsPhase.start/end/get_prob")],
     BND + TRUST)

prop("Q06", "Conservation per class and buffer limit in the priority simulator",
     "In the multi-class priority simulator, under every discipline (none, non-preemptive, preemptive resume, repeat with and without resampling), after every event each class has arrived = served + blocked + present, and busy servers, free servers and queue length agree with the jobs present. "
     "No server idles while any job waits, and an arrival that cannot start is blocked exactly when a limited waiting room (zero included) is full. "
     "A run for N served jobs ends after N departures in total over the classes.",
     HIST, "every sequence of events and all durations, five disciplines, 1-3 servers, 2-3 classes, waiting rooms none/0/1/2",
     TESTS_SIM, [SIM + "priority_queue_sim.py"], [("admission and preemption", "PriorityQueueSimulator.arrival"), ("departure", "PriorityQueueSimulator.serving")],
     BND + TRUST)

prop("Q07", "Priority order and preemption semantics",
     "In the priority simulator the next job started is always the earliest-arrived waiting job of the highest class (of any class without priorities), and under preemptive disciplines an arrival that finds all servers busy displaces a job of the lowest class in service if that class is lower than its own, never one of its own or a higher class. "
     "A displaced job keeps its place within its class and, when restarted, needs exactly its remaining time (resume), its original full length again however often it is displaced (repeat without resampling), or a fresh length from its own class's service law (repeat with resampling).",
     HIST, "every sequence of events and all durations, five disciplines, 1-3 servers, 2-3 classes",
     TESTS_SIM, [SIM + "priority_queue_sim.py"], [("preemption", "PriorityQueueSimulator.arrival"), ("selection of the next job", "PriorityQueueSimulator.serving"),
                                                  ("restart", "Server.start_service")],
     BND + TRUST)

prop("Q08", "Per-class statistics of the priority simulator are those of the history",
     "For every class the reported sojourn moments are the sample moments of (departure minus arrival) over its served jobs, and the reported waiting moments those of the total time each served job spent in the queue, including time after preemptions. "
     "The reported class state probabilities are the shares of time (up to the class's last event) with j jobs of that class present.",
     HIST, "every sequence of events and all durations, five disciplines, 1-2 servers, 2-3 classes, waiting rooms none/0/1/2",
     TESTS_SIM, [SIM + "priority_queue_sim.py"], [("moments", "refresh_v_stat, refresh_w_stat"), ("time accounting", "p, t_old"), ("normalisation", "get_p")],
     BND + TRUST)

prop("Q09", "Priority network: routing, conservation and network-wide times",
     "In the network simulator a job of class k entering the network or leaving node i goes to node j (or out) with the probability given in that class's routing matrix, and is served there with the service law given for its class and node, at the priority position the node's permutation assigns to the class. "
     "Jobs are never lost or duplicated: per class, entered = left + present over the nodes, with each node's counts agreeing with the jobs there. "
     "The network sojourn moments average (leaving minus entering) and the network waiting moments the total queueing time over all nodes visited, per class over jobs that left.",
     HIST, "every sequence of events, all durations and routing draws, symbolic routing probabilities, 1-2 nodes, 2-3 classes, all disciplines, all kinds of priority permutations including 3-cycles",
     "The one test compares a long random run with an approximation within 10%, for one topology and self-inverse permutations only.",
     [SIM + "priority_network.py", SIM + "priority_queue_sim.py"],
     [("routing", "PriorityNetwork.play_next_node"), ("class renumbering", "nodes_prty, in_node_class_num"), ("network statistics", "refresh_v_stat, refresh_w_stat, wait_network")],
     BND + TRUST)

prop("Q10", "Finite-source simulator: sources, queue and statistics",
     "In the finite-source simulator each of the m sources is either thinking or has exactly one job in the system, and starts a new think time when its job departs or is blocked; waiting jobs are served first-come-first-served and blocked exactly when the waiting room is full. "
     "The reported counters, state probabilities over 0..m, waiting, sojourn and busy-period moments are those of the history.",
     HIST, "every sequence of events and all durations, 1-3 servers, 1-5 sources, waiting rooms none/0/1",
     "No test runs this simulator at all.", [SIM + "queue_finite_source_sim.py", SIM + "qs_sim.py"],
     [("source bookkeeping", "arrival, serving, sources_left, arrival_times")],
     BND + TRUST)

prop("Q11", "Batch-arrival simulator: batch sizes, blocking and statistics",
     "In the batch simulator each arrival epoch brings i jobs with the i-th given probability, all at the same instant, each admitted or blocked individually in order. "
     "The reported counters, state probabilities, waiting, sojourn and busy-period moments are those of the history.",
     HIST, "every sequence of events, all durations, size draws and size probabilities, 1-3 servers, waiting rooms none/0/1/2",
     "One test compares the mean sojourn time of one random run with theory; buffers, state probabilities and waiting moments are never looked at.",
     [SIM + "batch_sim.py", SIM + "qs_sim.py"], [("batch draw", "calc_cdf_prob, arrival"), ("time accounting", "arrival")],
     BND + TRUST)

prop("Q12", "Impatient-customers simulator: abandonment and statistics",
     "In the simulator with impatient jobs a waiting job leaves the queue exactly when its patience, drawn at arrival, runs out before its service starts, and a job in service never leaves early; queue order of the others is kept. "
     "Counters, state probabilities and busy-period moments are those of the history; sojourn moments average over all departed jobs (served and abandoned) and waiting moments over all jobs that started service or abandoned.",
     HIST, "every sequence of events and all durations and patience times, 1-2 servers, waiting rooms none/0/1/2",
     "One test compares the mean sojourn time of one random run with theory.", [SIM + "impatient_queue_sim.py", SIM + "qs_sim.py"],
     [("abandonment", "drop_task, run_one_step"), ("statistics", "refresh_v_stat, refresh_w_stat")],
     BND + TRUST)

prop("Q13", "Fork-join and split-join: forking, completion, purging and statistics",
     "In the fork-join (n, k) simulator (unlimited waiting room) every job forks one subtask to each of the n servers, each server serves its subtasks first come first served, and the job is done exactly when its k-th subtask completes; with purging its remaining subtasks disappear at that instant and freed servers go on with their queues. "
     "In split-join mode a job's n subtasks start together and only when all subtasks of the previous job are done. "
     "Counters of jobs and subtasks, state probabilities and sojourn moments are those of the history.",
     HIST, "every sequence of events and all durations, n<=3, k<=n, with and without purging",
     "The test runs split-join with n=k only and compares one mean; fork-join, k<n and purging are never run.",
     [SIM + "fj_sim.py", SIM + "utils/tasks.py"], [("forking", "ForkJoinSim.arrival"), ("completion and purging", "ForkJoinSim.serving")],
     BND + TRUST)

prop("Q14", "Delayed fork-join/split-join: parts, order and statistics",
     "In the delayed variant (unlimited waiting room) the parts of a job become available one after another: the i-th further part i delays after the job (for random delays with the mean and variance of the sum of i independent delays), in fork-join mode any free server takes the waiting parts first come first served, and in split-join mode parts of one job only are served until that job is done, jobs in order of arrival. "
     "No part is lost; a job is done exactly when all its parts are, and counters, state probabilities and sojourn moments are those of the history.",
     HIST, "every sequence of events, all durations and delays, n<=3 servers, 2-4 parts (more parts than servers included)",
     "The test runs split-join with n=k=3 and short delays only and compares one mean with an approximation.",
     [SIM + "fj_delta_sim.py", SIM + "fj_sim.py"], [("parts", "task_arrival, subtask_arrival"), ("completion", "ForkJoinSimDelta.serving")],
     BND + TRUST)

RD = "most_queue/rand_distribution.py"
REAL = "Bounded as stated per harness; all real parameters in range. "
TRUSTM = "Trusts the executor (exact reals, not IEEE rounding) and the stated closed forms used as oracle."

prop("D01", "Random variates follow the declared law and come from the given generator",
     "For each distribution (exponential, H2, Erlang, Gamma, Cox, Pareto, uniform, normal, constant) a generated value is the transformation of independent primitive random draws that has exactly the declared law with the declared parameters: inverse transforms, sums of phases, mixtures. "
     "All draws come from the generator that was supplied (or the global source if none was), and every value uses fresh draws; the factory used by the simulators builds the law named by its Kendall letter.",
     ["inputs", "configurations"], "all real parameters and all values of the primitive draws, every law, every way of sampling",
     "Tests only sample: a wrong branch of a mixture or a draw from the wrong generator shifts results by less than their tolerances.",
     [RD, SIM + "utils/distribution_utils.py"], [("samplers", "generate, generate_static of each class"), ("factory", "create_distribution")],
     REAL + "numpy's primitive draws have their documented laws. " + TRUSTM)

prop("D02", "Moments, densities, distribution functions and tails agree with the law",
     "For each supported law the theoretical moments returned are the raw moments of that law (for Pareto only those that exist), and the forward-recurrence parameters of H2 describe its residual law. "
     "Density, distribution function, tail and Laplace transform at any point are those of one and the same law, on and off its support.",
     ["inputs"], "all real parameters and points, first 1..4 (thorough 6) moments, Erlang/Gamma orders and Pareto exponents as listed",
     "Tests never evaluate these functions directly, least of all off the support or for other moment counts.",
     [RD], [("moments", "calc_theory_moments of each class"), ("curves", "get_pdf, get_cdf, get_tail, get_f, get_pls")],
     REAL + TRUSTM)

prop("D03", "Fitted parameters reproduce the moments they were fitted to",
     "Fitting a law to moments (or to mean and coefficient of variation) returns parameters whose law has exactly those moments: two for uniform, Pareto and Gamma, the mean and the nearest order for Erlang, the mean for exponential, three for H2 and Cox with complex parameters, three within the search tolerance for real H2, all given moments for the Gamma density with correction polynomial. "
     "Exponential moments, and third moments too small for H2, are handled rather than failing, the mean being kept.",
     ["inputs"], "all moments in range, feasible or not, outside the stated neighbourhoods of degenerate laws; real H2 within a bounded number of halvings",
     "Tests use one or two moment sets per fit and only look at the queue results computed from them within several percent.",
     [RD], [("fits", "get_params, get_params_clx, get_params_by_mean_and_coev, get_a_k, get_mu_alpha"), ("Gamma function", "get_gamma")],
     REAL + TRUSTM)

prop("D04", "Reported load is offered work per server",
     "The load factor reported by the single-node, batch and priority simulators equals the mean service time times the arrival rate (times the mean batch size; summed over classes) divided by the number of servers, for every law of arrivals and service with finite means.",
     ["inputs", "configurations"], "all nine laws in both roles, all real parameters, 1-3 servers, 2-3 classes",
     "No test looks at the reported load.", [SIM + "utils/distribution_utils.py", SIM + "qs_sim.py", SIM + "priority_queue_sim.py", SIM + "batch_sim.py"],
     [("load", "calc_qs_load, calc_load")], REAL + TRUSTM)

prop("D05", "Moment convolution, numerical derivatives and binomial weights",
     "The moments returned for a sum of independent variables (of two, or of several equal ones) are those of the sum, and the moments returned for a difference are those of the other summand; any number of moments up to three may be asked for. "
     "The three-, four- and five-point differentiation formulas give the derivatives at the first point, exactly for polynomials of degree below the number of points, and the binomial weights are those of the binomial law.",
     ["inputs"], "all real moments, polynomials, steps and probabilities; 1-3 moments, up to 3 (thorough 6) summands, sizes up to 6 (12)",
     "Tests see these only through queue results compared within tens of percent (a third moment error of the difference stays unseen).",
     ["most_queue/general_utils/conv.py", TH + "utils/diff5dots.py", TH + "utils/binom_probs.py"],
     [("convolution", "get_moments, get_self_conv_moments, get_moments_minus"), ("differentiation", "diff5dots"), ("binomial weights", "calc_binom_probs")],
     REAL + TRUSTM)

NUM = "Numerical steps that are not exact are named in the evidence and excluded. "

prop("T01", "M/M/n/r: state law, losses, queue, waiting and sojourn moments",
     "The M/M/n/r calculation returns the stationary probabilities of 0..n+r jobs (they satisfy the balance equations and sum to one), the blocking probability, the mean and factorial moments of the queue length, and the waiting and sojourn moments of the jobs that are admitted, first come first served. "
     "This holds below, at and above load one.",
     ["inputs", "configurations"], "all positive rates, 1-3 servers (thorough 5), waiting rooms 0-6 (thorough 8)",
     "Waiting times are printed, not asserted, by one test with negligible losses; load one is never tried.",
     [TH + "mmnr_calc.py"], [("state law", "MMnr_calc.get_p"), ("moments", "get_qs, get_w, get_v, getQ, getPI")],
     BND.replace("all real-valued durations, every order of events, runs of the stated number of events from the empty system", "the listed sizes") + TRUSTM)


def TB(sizes):
    return "Bounded: " + sizes + ". " + NUM + TRUSTM


prop("T02", "M/G/1: waiting, sojourn and state probabilities",
     "For Poisson arrivals and one server with any service law and load below one, the returned waiting and sojourn moments are the Pollaczek-Khinchine ones, every moment asked for (as far as service moments were given). "
     "The returned state probabilities are those of the M/G/1 queue whose numbers of arrivals per service have the law of the fitted service time (Gamma, uniform, Pareto).",
     ["inputs"], "all arrival rates and service moments with load below one, up to 4 (thorough 6) moments, first 5 (7) states",
     "One test compares three moments with a simulation within tens of percent and prints the state probabilities.",
     [TH + "mg1_calc.py", TH + "utils/q_poisson_arrival_calc.py"],
     [("moments", "get_w, get_v"), ("states", "get_p"), ("arrivals during a service", "get_q_Gamma, get_q_uniform, get_q_Pareto")],
     TB("moment counts, states and numbers of arrivals as listed"))

prop("T03", "M/G/1 with warm-up: sojourn-time transform and its moments",
     "For one server where the first job of every busy period has a service law of its own (warm-up), the returned sojourn moments are the derivatives at zero of the transform of the sojourn time of that queue, both laws being read as Gamma laws with the given mean and second moment.",
     ["inputs"], "all arrival rates and means with load below one, Gamma shapes 1-2 (thorough 1-6)",
     "One test, with one set of parameters, prints the result.", [TH + "mg1_warm_calc.py"], [("transform", "get_v")],
     TB("whole Gamma shapes as listed"))

prop("T04", "M/M/1 with batch arrivals: states, mean queue, waiting and sojourn times",
     "For batch Poisson arrivals and one exponential server with load below one, the returned probabilities are the stationary ones up to a factor fixed by the empty-system probability one minus load (they satisfy the balance equations), the list ending at the asked length or when the neglected rest is below the tolerance. "
     "The mean number in system, mean queue and mean waiting and sojourn times are the stationary ones and obey Little's law.",
     ["inputs"], "all rates, batch-size laws up to 3 (thorough 5; means 4 (8)), first 6 (8) states",
     "One test compares the mean sojourn time of one random run and checks one state list.", [TH + "batch_mm1.py"],
     [("states", "BatchMM1.get_p"), ("means", "get_N, get_Q, get_w1, get_v1")], TB("batch sizes and states as listed"))

prop("T05", "GI/M/1: root, state probabilities, waiting and sojourn moments",
     "For one exponential server and general arrivals, the search for the root of w = A(mu(1-w)) only returns a value that meets the equation within the tolerance for the fitted law (Gamma density with correction, Pareto). "
     "From a root, the state probabilities seen by arrivals and at any time and the waiting and sojourn moments are those of the GI/M/1 queue; all numbers of states and moments asked for are returned.",
     ["inputs"], "all service rates, laws and roots in range; few steps of the iteration; 3-5 (thorough 20) states, 2-4 moments",
     "The test compares with a simulation allowing 300 percent.", [TH + "gi_m_1_calc.py"],
     [("root", "get_w_param"), ("formulas", "get_pi, get_p, get_w, get_v")], TB("iterations and shapes as listed"))

prop("T06", "GI/M/n: root, embedded chain, state probabilities, waiting moments",
     "For n exponential servers and general arrivals, the search for the root only returns a value meeting the equation within the tolerance, and the transforms of the interarrival law at multiples of the service rate are those of the fitted law. "
     "The probabilities seen by arrivals satisfy the embedded chain and sum to one, those at any time follow from them by rate balance, and the waiting moments are the derivatives of the transform of the waiting time; sojourn adds an independent service.",
     ["inputs", "configurations"], "any root and transforms, 1-3 (thorough 4-6) servers",
     "The test compares with a simulation within tens of percent for one configuration.", [TH + "gi_m_n_calc.py"],
     [("root", "get_w_param"), ("chain", "get_pi, get_b0"), ("any time", "get_p"), ("waiting", "get_w, get_w_pls, get_v")], TB("servers, shapes and iterations as listed"))

prop("T07", "Finite-source M/M/1 (Engset): states, means, waiting and sojourn moments",
     "For m sources and one exponential server the returned probabilities satisfy the balance equations and sum to one; mean numbers, throughput, source readiness, mean waiting and sojourn times are the stationary ones (Little's law). "
     "Waiting and sojourn moments are those of the time an arriving request waits, respectively stays.",
     ["inputs", "configurations"], "all rates, 1-5 (thorough 9) sources", "One test prints the results of one configuration.",
     [TH + "engset_model.py"], [("states", "Engset.get_p"), ("means", "get_N, get_Q, get_kg, get_lamD, get_w1, get_v1"), ("moments", "get_w, ws, get_v")],
     TB("sources as listed"))

prop("T08", "M/M/1 with impatience: empty probability, states and means",
     "For Poisson arrivals, one exponential server and exponential patience the returned empty-system probability and state probabilities are the stationary ones within the given tolerance (a sum ends only when the neglected terms are negligible, also while terms still grow), and mean numbers and mean waiting and sojourn times follow from them by Little's law.",
     ["inputs"], "all rates for which the sums end within 5-16 terms, tolerances 0.05-0.001", "One test prints the mean sojourn time of one configuration.",
     [TH + "impatience_calc.py"], [("sums", "get_p0, get_p"), ("means", "get_N, get_Q, get_w1, get_v1")], TB("numbers of terms as listed"))

prop("T09", "M/D/n and Ek/D/n: recursion, roots and first probabilities",
     "For constant service, n servers and Poisson or Erlang arrivals the returned probabilities satisfy the equation that ties the state law at two instants one service time apart, as many as asked for (or until rounding makes one negative). "
     "The first ones come from a linear system in the roots of the generating function's denominator, the roots returned are distinct and meet their equation within the tolerance.",
     ["inputs", "configurations"], "any load and first probabilities, 1-2 (thorough 3) servers, 1-2 (3) phases, 4-6 (8) states",
     "Two tests compare the first probabilities with a simulation within 10 percent.", [TH + "m_d_n_calc.py", TH + "ek_d_n_calc.py"],
     [("recursion", "calc_p"), ("linear system", "calc_p_up_to_n, calc_w_up_to_nk"), ("roots", "get_z"), ("phases", "calc_w, get_W, calc_q")], TB("sizes as listed"))

prop("T10", "Priority queue formulas: busy periods, preemptive and non-preemptive waiting",
     "Moments of busy periods (with and without warm-up) are those of the M/G/1 busy period. "
     "For one server with absolute priority the moments of waiting, of service with interruptions and of sojourn of every class, and for relative priority the transform whose derivatives give the waiting moments, are those of the priority queue. "
     "For n servers the waiting moments are the stated ratio (queue of n servers without priority over that of one n times faster server) of the one-server ones, and sojourn adds an independent service.",
     ["inputs", "configurations"], "all class rates and service moments with load below one, 1-3 (thorough 4) classes, 1-3 moments (busy periods 5)",
     "Tests compare a few means with simulations within tens of percent, and only through the ratio method.", [TH + "priority_calc.py"],
     [("busy periods", "ppnz_calc, ppnz_calc_warm_up"), ("absolute", "calc_pr1, get_w1_pr, climov_w_pr_calc"), ("relative", "get_w_np, get_w1_np"), ("ratio method", "get_w_prty_invar, get_v_prty_invar, get_w_MxGn_no_pr")],
     TB("classes as listed"))

prop("T11", "Networks: traffic equations, classes per node, loads, sojourn transform",
     "The rates returned for a routing matrix satisfy the traffic equations, also when a class never visits a node. "
     "In the calculation of a network of priority queues each node gets every class's rate and service at the rank that class has there, returns its sojourn moments under the class's own number, its load is the offered work per server, and the network sojourn moments of a class are the derivatives of the transform obtained by routing the node sojourn times (Gamma laws) through the network.",
     ["inputs", "configurations"], "any routing with the listed zero entries, 1-4 (thorough 5) nodes, 2-3 (4) classes, any rates, services and node sojourn moments",
     "The network test uses one routing, one service law and orders of priority that hide permutation errors, and prints the result.", [TH + "network_calc.py"],
     [("traffic equations", "balance_equation"), ("network", "network_prty_calc")], TB("nodes, classes and routings as listed"))

prop("T12", "Fork-join formulas: mean times, order statistics, moments of the maximum",
     "The mean sojourn times of fork-join queues are the published approximations (exact for two branches, M/M/1 for one), and those for the k-th of n branches combine them with the weights that express an order statistic by maxima. "
     "Moments of a maximum of n equal variables (without delays, with fixed delays, with random delays, one after another) are the ten-point quadrature of the product of the distribution functions fitted to the moments given. "
     "The ratio methods use many-server queues with the load of one branch and differ from the two-branch value by exactly the ratio of these queues.",
     ["inputs", "configurations"], "all rates and moments with load below one, 1-5 (thorough 8) branches, every k; any values of the distribution functions",
     "Tests only look at the maximum through one split-join mean within 10 to 20 percent; the other formulas are never run.", [TH + "fj_calc.py"],
     [("means", "get_v1_fj2, get_v1_fj_varma, get_v1_fj_nelson_tantawi, get_v1_fj_varki_merchant"), ("order statistics", "get_v1_varma_nk, get_v1_fj_nelson_nk, get_W, get_A"), ("maximum", "getMaxMoments, getMaxMomentsDelta"), ("ratio methods", "get_v1_fj_invar, get_v_fj_invar_tt, get_v_fj_max")],
     TB("branches as listed"))

prop("T13", "M/G/n by two-phase fit: chain, level iteration, waiting and sojourn moments",
     "The level-structured calculation of the M/H2/n queue (also with limited room) builds the rate matrices of that queue for the phases fitted to the service moments. "
     "One sweep of its iteration keeps the stationary law (limited room) or solves the balance equations of each level given its neighbours, level probabilities follow from the flows between levels and sum to one. "
     "Waiting moments of accepted jobs are the Little-type factorial moments, sojourn adds an independent service, and arrivals at a full system are lost.",
     ["inputs", "configurations"], "1-3 (thorough more) servers, rooms 0-2, all rates and weights (in sweeps some fixed), any level probabilities",
     "Tests compare waiting moments with simulations within tens of percent for one or two load values without limited room.", [TH + "mgn_tt.py"],
     [("matrices", "build_matrices, buildA-D"), ("iteration", "run, calculate_p"), ("moments", "get_w, get_v, get_p")], TB("servers, levels and rooms as listed"))

VACW = ("The calculation builds the rate matrices of the queue in which %s. "
        "With limited room one sweep of the iteration keeps the stationary law; without, it solves the balance equations of each level given its neighbours. Level probabilities follow from the flows and sum to one. ")

prop("T14", "M/G/n with warm-up of the first job: chain, iteration, waiting and sojourn",
     VACW % "the job that finds the system empty gets a first service of another law (two-phase fits of all laws)" +
     "Waiting moments are those of the number waiting (Little-type) and the sojourn moments account for the other law of the first service.",
     ["inputs", "configurations"], "1-3 (thorough more) servers, rooms 0-1, all rates and weights (in sweeps some fixed), any level probabilities",
     "One test compares a simulation within tens of percent for one configuration.", [TH + "m_h2_h2warm.py"],
     [("matrices", "build_matrices, buildA-D"), ("iteration", "run, calculate_p"), ("moments", "get_w, get_v")], TB("servers, levels and rooms as listed"))

prop("T15", "M/M/n with warm-up and cooling: chain, iteration, phase shares, waiting law",
     VACW % "an arrival at the empty system starts a warm-up, the last departure starts a cooling, and arrivals during either wait (two-phase fits of both)" +
     "The waiting-time transform is that of the first passage of the chain from the state found by an arrival, its derivatives are the waiting moments, sojourn adds an independent service; the returned shares of time in warm-up and cooling are those of the chain.",
     ["inputs", "configurations"], "1-3 (thorough more) servers, rooms 0-1, all rates and weights (in sweeps some fixed), any level probabilities",
     "One test compares a simulation within tens of percent for one configuration.", [TH + "mmn_with_h2_cold_and_h2_warmup.py"],
     [("matrices", "build_matrices, buildA-D"), ("iteration", "run, calculate_p"), ("waiting", "calc_w_pls, get_w, get_v"), ("shares", "get_cold_prob, get_warmup_prob")], TB("servers, levels and rooms as listed"))

prop("T16", "M/G/n with warm-up, cooling and delayed cooling: chain, iteration, waiting",
     VACW % "an arrival at the empty cold system starts a warm-up, the last departure starts a delay after which cooling begins, an arrival during the delay is served at once (two-phase fits of all laws)" +
     "The waiting-time transform is that of the first passage of the chain from the state found by an arrival, its derivatives are the waiting moments, sojourn adds an independent service; the returned shares of time in warm-up, cooling and delay are those of the chain.",
     ["inputs", "configurations"], "1-3 (thorough more) servers, rooms 0-1 (2), all rates and weights (in sweeps some fixed), any level probabilities",
     "One test compares a simulation within tens of percent for one configuration.", [TH + "mgn_with_h2_delay_cold_warm.py"],
     [("matrices", "build_matrices, buildA-D"), ("iteration", "run, calculate_p"), ("waiting", "calc_w_pls, get_w, get_v"), ("shares", "get_cold_prob, get_warmup_prob, get_cold_delay_prob")], TB("servers, levels and rooms as listed"))
