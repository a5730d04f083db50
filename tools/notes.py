NOTE.update({
 "C01": "Sampled, not exhaustive: tens of thousands of seeded runs of random operator DAGs over 1-4 simulated workers with delays, partitions and stalls; every output compared with from-scratch evaluation at every event time.",
 "C02": "As C01 at products of times, including joins of event times, with inputs holding antichains of capabilities and every reduction strategy.",
 "C03": "As C01 for programs with iterative scopes (nested and mutually recursive included); the reference is the explicit fixed point.",
 "C06": "Every worker's probe is consulted after every step; a passed time must already be exact and stay so; capability and regression checks run inline.",
 "C07": "After the fault phase a fair schedule must complete every phase and remove every dataflow within a fixed number of steps.",
 "C17": "Sampled histories of sessions and unordered handles on 1-4 simulated workers, against a model of what was sent at what time; the recorded flush defect is excluded by name only.",
 "C04": "Sampled schedules of writes, clones, drops, compactions and reads of handles on 1-4 simulated workers over five kinds of arrangement; recorded defects (partial shutdown under a reduction, reductions of physically compacted imports) are excluded by name only.",
 "C05": "As C04, with imports into later dataflows at arbitrary points and after the source closed; truncated histories are judged only before their truncation for nonlinear uses.",
 "C08": "Sampled logs and at-least-once deliveries (duplicates, reordering, pauses, redundant partial logs, restarts) into 1-4 readers, and into the iterator form at total and partial times; the dataflow form only at totally ordered times, as its code documents.",
 "C09": "Sampled histories and refusal patterns over 1-4 simulated workers; writers may also be dropped, after which only the truth of what they accepted is judged.",
 "C10": "Sampled upsert sequences with ties, deletions, rewrites and out-of-order arrival within the frontier on 1-4 simulated workers; at one time the greatest value wins, as documented.",
 "C11": "Sampled conjunctive queries, plans, tie-breaking ranks, yield decisions and compaction functions on 1-4 simulated workers; compaction functions are those the documentation permits.",
 "C12": "Sampled conjunctive queries and lookups on 1-4 simulated workers; relations of extension queries are sets, since an index confirms but does not count.",
 "C13": "Sampled histories, keys and value shapes through the columnar and chunked batch backends on 1-4 simulated workers, with small chunks, spilling to a simulated store and paged reads; results compared with from-scratch evaluation.",
 "C14": "Sampled nestings up to three levels deep in the row and columnar backends, at totally and partially ordered outer times; bodies are monotone or contracting so that iteration converges.",
 "C19": "Sampled graphs of up to eight nodes and sequences with near and far positions under random change histories, at totally and partially ordered times on 1-4 simulated workers; inputs are non-negative, and sets where an algorithm asks for sets.",
 "C18": "Sampled histories of arranging, merging, sharing, importing, compacting and dropping on 1-4 simulated workers, with the monitoring dataflow in a quarter of the runs; elapsed-time statistics are only required to be positive.",
"C16": "Sampled well-typed programs that settle within a bound (at most 160 rows in any name), over one to three inputs of pairs of small integers, with consolidation on every cycle; explanations of monotone programs and four fixed templates (transitive closure, reachability, strongly connected components, in-degree). The columnar rendering is not compiled in this tree and is not covered.",
"C15": "Sampled sessions of 8 to 34 commands on one to four workers, programs as in C16 over up to two inputs and two imports; commands are pushed to a timely sequencer by one or several workers and executed as the example server does; the text printed by peek and list is compared. The example's command-line parsing is not covered.",
})
