From c45d8636763fe267387f9288afbd28a1e815f3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:16 +0000
Subject: [PATCH 01/28] fix: seed the hash set of ruined routes like the others

Its iteration order decides ties between insertion positions, so a hasher seeded
from the operating system made deterministic runs differ from one another.
---
 src/solver/improvement/ruin_recreate/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/improvement/ruin_recreate/mod.rs b/src/solver/improvement/ruin_recreate/mod.rs
index 2368413..2238bbc 100644
--- a/src/solver/improvement/ruin_recreate/mod.rs
+++ b/src/solver/improvement/ruin_recreate/mod.rs
@@ -40,7 +40,7 @@ impl RuinRecreateSolution {
         Self {
             routes,
             unassigned,
-            ruined_routes: HashSet::with_hasher(RandomState::new()),
+            ruined_routes: HashSet::with_hasher(ctx.random.random_state()),
             locations,
             cost: f64::INFINITY,
         }
-- 
2.43.0


From 4d10ab7b76ae6fe72214aae2d84ceaba3720f0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:16 +0000
Subject: [PATCH 02/28] fix: keep the listed neighbours within the correlation
 matrix

With a granularity above the number of stored neighbours (fewer than 22 customers by
default) the slice ran into the next row and past the end of the matrix.
---
 src/models/matrix.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/models/matrix.rs b/src/models/matrix.rs
index 0a0e797..1d86801 100644
--- a/src/models/matrix.rs
+++ b/src/models/matrix.rs
@@ -390,7 +390,7 @@ pub struct CorrelationMatrix {
 impl CorrelationMatrix {
     pub fn new(distance_matrix: &DistanceMatrix) -> Self {
         let size = distance_matrix.size();
-        let width = CORRELATION_LIMIT.min(size - 2);
+        let width = CORRELATION_LIMIT.min(size.saturating_sub(2));
         let mut matrix: Matrix<usize> = Matrix::new(size, width);
         for i in 0..size {
             distance_matrix
@@ -417,11 +417,11 @@ impl CorrelationMatrix {
     }
 
     pub fn top_slice(&self, index: usize, number: usize) -> &[usize] {
-        self.slice(index, 0, number)
+        self.slice(index, 0, number.min(self.width))
     }
 
     pub fn top_slice_mut(&self, index: usize, number: usize) -> &mut [usize] {
-        self.storage.slice_mut(index, 0, number)
+        self.storage.slice_mut(index, 0, number.min(self.width))
     }
 
     fn slice(&self, row: usize, start: usize, number: usize) -> &[usize] {
-- 
2.43.0


From ea3b535260a0edc59e5bcbeb4eea4a90e3c3b293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:17 +0000
Subject: [PATCH 03/28] fix: crossover of a one-customer instance never
 returned

No second end different from the start exists, so the search for one looped forever.
---
 src/solver/genetic/genetic.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/solver/genetic/genetic.rs b/src/solver/genetic/genetic.rs
index ddfd35c..4271f30 100644
--- a/src/solver/genetic/genetic.rs
+++ b/src/solver/genetic/genetic.rs
@@ -65,6 +65,14 @@ impl GeneticAlgorithm {
         parent_one: &Individual,
         parent_two: &Individual,
     ) -> Individual {
+        // With a single customer there is no other order and no second end to the zone
+        if parent_one.genotype.len() < 2 {
+            return Individual::new(
+                parent_one.genotype.clone(),
+                self.population.total_individuals_count,
+            );
+        }
+
         // Randomly select start of the crossover zone
         let start = ctx.random.range_usize(0, parent_one.genotype.len());
 
-- 
2.43.0


From b639ba8d5f684b534dca0c400a7bf69f33f93575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:17 +0000
Subject: [PATCH 04/28] fix: matrices check their allocation

A failed allocation was used as a matrix at address zero; empty matrices asked the
allocator for zero bytes, which it does not define.
---
 src/models/matrix.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/models/matrix.rs b/src/models/matrix.rs
index 1d86801..d1fc288 100644
--- a/src/models/matrix.rs
+++ b/src/models/matrix.rs
@@ -1,5 +1,5 @@
 use std::{
-    alloc::{alloc_zeroed, dealloc, Layout},
+    alloc::{alloc_zeroed, dealloc, handle_alloc_error, Layout},
     fmt::Display,
 };
 
@@ -26,8 +26,13 @@ impl<T: Copy> Matrix<T> {
         // Allocate memory for the matrix
         let elements = rows * cols;
         let layout = Layout::array::<T>(elements).expect("Failed to create layout for matrix");
-        let ptr = unsafe {
-            let ptr = alloc_zeroed(layout) as *mut T;
+        let ptr = if layout.size() == 0 {
+            std::ptr::NonNull::dangling().as_ptr()
+        } else {
+            let ptr = unsafe { alloc_zeroed(layout) as *mut T };
+            if ptr.is_null() {
+                handle_alloc_error(layout);
+            }
             ptr
         };
 
@@ -123,7 +128,9 @@ where
     fn drop(&mut self) {
         let layout =
             Layout::array::<T>(self.rows * self.cols).expect("Failed to create layout for matrix");
-        unsafe { dealloc(self.ptr as *mut u8, layout) };
+        if layout.size() > 0 {
+            unsafe { dealloc(self.ptr as *mut u8, layout) };
+        }
     }
 }
 
-- 
2.43.0


From 8f758339cfe7e2dc381ff159acd6edc4561f4bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:43 +0000
Subject: [PATCH 05/28] fix: a failing read of the instance file is an error

Lines that could not be read were skipped, so a persistent read error (for example
from a directory) looped forever and a transient one dropped a record.
---
 src/utils/parser.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/utils/parser.rs b/src/utils/parser.rs
index a75775b..1d1cb34 100644
--- a/src/utils/parser.rs
+++ b/src/utils/parser.rs
@@ -1,5 +1,5 @@
 use std::fs::File;
-use std::io::{BufRead, BufReader};
+use std::io::Read;
 use std::path::Path;
 use std::str::FromStr;
 
@@ -86,12 +86,12 @@ impl ProblemParser {
     }
 
     fn read_file(path: &Path) -> Lines {
-        let file = File::open(path).expect("Failed to open file");
-        let reader = BufReader::new(file);
-        let line_strings: Vec<String> = reader.lines().filter_map(|line| line.ok()).collect();
+        let mut file = File::open(path).expect("Failed to open file");
+        let mut bytes = Vec::new();
+        file.read_to_end(&mut bytes).expect("Failed to read file");
 
-        line_strings
-            .iter()
+        String::from_utf8_lossy(&bytes)
+            .lines()
             .map(|line| {
                 let line_values: Vec<String> = line
                     .split(&[' ', '\t', ':'][..])
-- 
2.43.0


From e31f6e1bdb4e351eb21f8f8e35e0037c12b0b818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:43 +0000
Subject: [PATCH 06/28] fix: an instance file that ends early is an error

Missing records silently gave a smaller problem or zero distances, and overlong
lower-row lines were written past the end of the distance matrix.
---
 src/utils/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/utils/parser.rs b/src/utils/parser.rs
index 1d1cb34..ae5dd0f 100644
--- a/src/utils/parser.rs
+++ b/src/utils/parser.rs
@@ -67,6 +67,8 @@ impl ProblemParser {
         let capacity = Self::parse_capacity(&lines);
         let coords = Self::parse_coords(&lines, dimension);
         let demands = Self::parse_demands(&lines, dimension);
+        assert_eq!(coords.len(), dimension, "Missing node coordinates");
+        assert_eq!(demands.len(), dimension, "Missing demands");
         let nodes = Self::create_nodes(coords, demands);
         let vehicle = Self::create_vehicle(0, capacity);
 
@@ -79,6 +81,10 @@ impl ProblemParser {
             EdgeWeightType::Explicit => match Self::parse_edge_weight_format(&lines) {
                 EdgeWeightFormat::LowerRow => {
                     let matrix = Self::parse_lower_row_matrix(&lines, dimension);
+                    assert_eq!(matrix.len(), dimension - 1, "Missing edge weight rows");
+                    for (row_number, row) in matrix.iter().enumerate() {
+                        assert_eq!(row.len(), row_number + 1, "Wrong edge weight row length");
+                    }
                     self.matrix = Some(matrix);
                 }
             },
-- 
2.43.0


From 94846496e45d2abf0fc1c70dfb478fad97ca6710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:43 +0000
Subject: [PATCH 07/28] fix: arguments that were not given no longer override
 config.yml

The time limit, the solution path and the rounding of distances always took the
defaults of the command line parser, and `-r false` was read as true.
---
 src/cli.rs    | 10 ++++------
 src/config.rs | 11 +++++++++--
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/cli.rs b/src/cli.rs
index 3c47c90..e43c88c 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -6,7 +6,7 @@ pub struct Args {
     pub solution_path: Option<String>,
     pub time_limit: Option<u64>,
     pub max_iterations: Option<u64>,
-    pub rounded: bool,
+    pub rounded: Option<bool>,
 }
 
 impl Args {
@@ -25,8 +25,7 @@ impl Args {
                 Arg::with_name("solution_path")
                     .short("o")
                     .takes_value(true)
-                    .default_value("output.sol")
-                    .help("Path to solution output"),
+                    .help("Path to solution output [default: output.sol]"),
             )
             .arg(
                 Arg::with_name("iterations")
@@ -38,14 +37,13 @@ impl Args {
                 Arg::with_name("time_limit")
                     .short("t")
                     .takes_value(true)
-                    .default_value("10")
                     .help("Time limit in seconds"),
             )
             .arg(
                 Arg::with_name("rounded")
                     .short("r")
                     .takes_value(true)
-                    .default_value("true")
+                    .possible_values(&["true", "false"])
                     .help("Rounded distances"),
             )
             .get_matches();
@@ -65,7 +63,7 @@ impl Args {
             .value_of("time_limit")
             .map(|value| value.parse::<u64>().expect("Invalid time limit argument!"));
 
-        let rounded = matches.is_present("rounded");
+        let rounded = matches.value_of("rounded").map(|value| value == "true");
 
         Self {
             instance_path,
diff --git a/src/config.rs b/src/config.rs
index b1a5ef6..494e685 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -213,13 +213,20 @@ impl Config {
     /// Update config with command line arguments
     pub fn update_from_args(&mut self, args: &Args) {
         self.instance_path = args.instance_path.clone();
-        self.solution_path = args.solution_path.clone();
+        if let Some(solution_path) = args.solution_path.as_ref() {
+            self.solution_path = Some(solution_path.clone());
+        }
+        // Without any setting the solution still ends up in a file
+        self.solution_path
+            .get_or_insert_with(|| String::from("output.sol"));
         if let Some(max_iterations) = args.max_iterations {
             self.max_iterations_without_improvement = max_iterations;
         }
         if let Some(time_limit) = args.time_limit {
             self.time_limit = time_limit;
         }
-        self.round_distances = args.rounded;
+        if let Some(rounded) = args.rounded {
+            self.round_distances = rounded;
+        }
     }
 }
-- 
2.43.0


From 4b23ee5040bfa781299377723b655d09f5a14596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:04 +0000
Subject: [PATCH 08/28] fix: decomposed runs look at the clock during their
 global searches

Each of these searches makes 100 000 moves and the first one is repeated while it
improves, which overran the time limit by minutes on large instances.
---
 src/solver/genetic/decomposition.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/solver/genetic/decomposition.rs b/src/solver/genetic/decomposition.rs
index 78e886c..d6f014f 100644
--- a/src/solver/genetic/decomposition.rs
+++ b/src/solver/genetic/decomposition.rs
@@ -51,11 +51,11 @@ impl DecomposedGeneticAlgorithm {
         loop {
             let cost_before = rr.best_cost();
             rr.acceptance.reset();
-            while !rr.complete() {
+            while !rr.complete() && !ctx.terminate() {
                 rr.search();
             }
             rr.get_best_solution(&mut self.global_ga.child);
-            if rr.best_cost().approx_gte(cost_before) {
+            if rr.best_cost().approx_gte(cost_before) || ctx.terminate() {
                 break;
             }
         }
@@ -102,7 +102,7 @@ impl Metaheuristic for DecomposedGeneticAlgorithm {
                 let rr = &mut self.global_ga.rr;
                 rr.acceptance.reset();
                 rr.load(ctx, &mut self.global_ga.child);
-                while !rr.complete() {
+                while !rr.complete() && !ctx.terminate() {
                     rr.search();
                 }
                 rr.get_best_solution(&mut self.global_ga.child);
-- 
2.43.0


From 70e61cd881f4797de49a395ff58f8fb06808d87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:04 +0000
Subject: [PATCH 09/28] fix: take the best solution of a sub-problem from its
 history

Improvements found by ruin-and-recreate were only recorded there, so an older and more
expensive solution was merged back, and a sub-problem without a feasible solution
ended the program.
---
 src/solver/genetic/decomposition.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/solver/genetic/decomposition.rs b/src/solver/genetic/decomposition.rs
index d6f014f..6cbdc62 100644
--- a/src/solver/genetic/decomposition.rs
+++ b/src/solver/genetic/decomposition.rs
@@ -163,7 +163,12 @@ impl<'a> Decomposition<'a> {
             sub_ga.iterate(&self.ctx);
         }
 
-        self.solution = sub_ga.best_solution.unwrap();
+        // The best solution found, or the initial one if none was feasible
+        if let Some(best) = self.ctx.search_history.borrow().last_entry() {
+            self.solution.phenotype = best.solution.routes.clone();
+            self.solution.genotype = self.solution.phenotype.iter().flatten().copied().collect();
+        }
+        self.solution.evaluate(&self.ctx);
     }
 
     pub fn finish(self, ctx: &Context) {
-- 
2.43.0


From b8e7264fe40b5db69c94a1f7613364fbd6344d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:04 +0000
Subject: [PATCH 10/28] fix: a merged solution has one route for every vehicle

Empty routes taken out with a sub-problem were not put back, and the sub-search could
use more routes than were left, so loading the merged solution into ruin-and-recreate
ended the program whenever the number of routes changed.
---
 src/solver/genetic/decomposition.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/solver/genetic/decomposition.rs b/src/solver/genetic/decomposition.rs
index 6cbdc62..e625dd9 100644
--- a/src/solver/genetic/decomposition.rs
+++ b/src/solver/genetic/decomposition.rs
@@ -137,6 +137,9 @@ impl<'a> Decomposition<'a> {
     pub fn new(global: &'a mut Individual, ctx: &Context) -> Self {
         let (mut sub_solution, mapping) = Self::decompose_global(&mut *global, ctx);
         let sub_ctx = ctx.from_mapping(&mapping[..]);
+        // The sub-problem gets its own routes and those the rest of the solution leaves unused
+        let remaining_routes = global.num_nonempty_routes() as u64;
+        sub_ctx.config.borrow_mut().num_vehicles -= remaining_routes;
         sub_solution.sort_routes(&sub_ctx);
         sub_solution.evaluate(&sub_ctx);
         println!("Decomposed size: {}", sub_ctx.problem.dim());
@@ -172,6 +175,7 @@ impl<'a> Decomposition<'a> {
     }
 
     pub fn finish(self, ctx: &Context) {
+        self.global.phenotype.retain(|route| !route.is_empty());
         for route in self.solution.phenotype.iter() {
             let new_route: Vec<usize> = route
                 .iter()
@@ -181,6 +185,9 @@ impl<'a> Decomposition<'a> {
                 self.global.phenotype.push(new_route);
             }
         }
+        // One route for every vehicle
+        let num_vehicles = ctx.config.borrow().num_vehicles as usize;
+        self.global.phenotype.resize(num_vehicles, Vec::new());
         self.global.genotype = self.global.phenotype.iter().flatten().copied().collect();
         self.global.sort_routes(ctx);
         self.global.evaluate(ctx);
-- 
2.43.0


From dc284c7129b52ea8ec2f5690c0c08ff81a21484a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:59 +0000
Subject: [PATCH 11/28] fix: ruin-and-recreate reports every feasible solution
 that is a new best

A feasible solution was passed over when the best one so far in the search was an
infeasible one of lower penalised cost, when it was not accepted, or when the loaded
solution was left for an infeasible one. The current solution also kept the cost of the
previous load, so the first move was judged against an unrelated solution.
---
 src/solver/improvement/ruin_recreate/mod.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/solver/improvement/ruin_recreate/mod.rs b/src/solver/improvement/ruin_recreate/mod.rs
index 2238bbc..8b30c51 100644
--- a/src/solver/improvement/ruin_recreate/mod.rs
+++ b/src/solver/improvement/ruin_recreate/mod.rs
@@ -176,9 +176,10 @@ impl RuinRecreate {
 
         // Load solution
         self.solution.load(individual);
-        self.current_solution = self.solution.clone();
         let routes: Vec<usize> = (0..self.solution.routes.len()).into_iter().collect();
         self.solution.evaluate(self.ctx, routes.iter());
+        self.current_solution = self.solution.clone();
+        self.update_history();
         self.acceptance.reset();
         // self.acceptance.print();
 
@@ -191,12 +192,17 @@ impl RuinRecreate {
 
     fn update_best(&mut self) {
         self.best_solution = Some(self.current_solution.clone());
+    }
+
+    /// Report the current solution if it is feasible and better than all before it,
+    /// no matter whether the search continues from it
+    fn update_history(&self) {
         let mut search_history = self.ctx.search_history.borrow_mut();
-        if self.current_solution.is_feasible()
-            && self
-                .current_solution
-                .cost
-                .approx_lt(search_history.best_cost)
+        if self
+            .current_solution
+            .cost
+            .approx_lt(search_history.best_cost)
+            && self.current_solution.is_feasible()
         {
             let mut best_individual = Individual::new_random(self.ctx, 0);
             self.update_individual(&self.current_solution, &mut best_individual);
@@ -235,6 +241,7 @@ impl RuinRecreate {
             let cost_before = self.current_solution.cost;
             self.ruin.run(self.ctx, &mut self.current_solution);
             self.recreate.run(self.ctx, &mut self.current_solution);
+            self.update_history();
             if self
                 .acceptance
                 .accept(self.current_solution.cost, cost_before, &self.ctx.random)
-- 
2.43.0


From ffe856cdec004d173acf50d77c1f040957591958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:59 +0000
Subject: [PATCH 12/28] fix: elite education follows a solver that is moved
 between steps

The reference to the context taken when education started was kept for all its steps
and dangled once the solver had been moved.
---
 src/solver/genetic/genetic.rs               | 2 ++
 src/solver/improvement/ruin_recreate/mod.rs | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/src/solver/genetic/genetic.rs b/src/solver/genetic/genetic.rs
index 4271f30..f839632 100644
--- a/src/solver/genetic/genetic.rs
+++ b/src/solver/genetic/genetic.rs
@@ -328,6 +328,8 @@ impl Metaheuristic for GeneticAlgorithm {
                 }
             }
             State::EliteEducation => {
+                // The context may have moved since the last step
+                self.rr.update_context(ctx);
                 if !self.rr.complete() {
                     self.rr.search();
                 } else {
diff --git a/src/solver/improvement/ruin_recreate/mod.rs b/src/solver/improvement/ruin_recreate/mod.rs
index 8b30c51..67bd965 100644
--- a/src/solver/improvement/ruin_recreate/mod.rs
+++ b/src/solver/improvement/ruin_recreate/mod.rs
@@ -186,6 +186,10 @@ impl RuinRecreate {
         self.best_solution = Some(self.solution.clone());
     }
 
+    pub fn update_context(&mut self, ctx: &Context) {
+        self.ctx = unsafe { &*(ctx as *const Context) };
+    }
+
     pub fn complete(&self) -> bool {
         self.acceptance.completed()
     }
-- 
2.43.0


From e86c8d962f3c8d24b210fa778528f1d14ea98ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:45 +0000
Subject: [PATCH 13/28] fix: a time schedule of zero duration is over at once

Zero divided by zero is not a number, so elite education with a time share of zero went
on for as long as the clock showed the instant of its start.
---
 src/solver/improvement/ruin_recreate/schedule.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/solver/improvement/ruin_recreate/schedule.rs b/src/solver/improvement/ruin_recreate/schedule.rs
index 8dbc737..359a5b9 100644
--- a/src/solver/improvement/ruin_recreate/schedule.rs
+++ b/src/solver/improvement/ruin_recreate/schedule.rs
@@ -171,6 +171,9 @@ impl TemperatureAcceptance for TimeSchedule {
     }
 
     fn elapsed(&self) -> f64 {
+        if self.duration == 0.0 {
+            return 1.0;
+        }
         self.start.elapsed().as_secs_f64() / self.duration
     }
 }
-- 
2.43.0


From c33acf3826488090872b65e34464dfd1392ce907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 14/28] fix: a split never uses more routes than there are
 vehicles

The vehicles left over for a sub-problem can be fewer than its own bin-packing bound;
the split then wrote past its tables and local search indexed a route that is not there.
---
 src/solver/genetic/split.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/solver/genetic/split.rs b/src/solver/genetic/split.rs
index ce64233..922b1e5 100644
--- a/src/solver/genetic/split.rs
+++ b/src/solver/genetic/split.rs
@@ -178,7 +178,12 @@ impl Split {
     }
 
     pub fn run(&mut self, ctx: &Context, individual: &mut Individual, max_vehicles: u64) {
-        let max_vehicles = max_vehicles.max(ctx.vehicle_lower_bound()) as usize;
+        // At least the lower bound, but never more than there are: the vehicles left over for a
+        // sub-problem may be fewer than its lower bound
+        let num_vehicles = ctx.config.borrow().num_vehicles;
+        let max_vehicles = max_vehicles
+            .max(ctx.vehicle_lower_bound())
+            .min(num_vehicles) as usize;
         self.load(ctx, individual);
 
         if !self.split(ctx, individual, max_vehicles) {
-- 
2.43.0


From e40a274a62316760af5f49702dd2b4a98ec369bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:28 +0000
Subject: [PATCH 15/28] fix: try the depot moves of the local search at the
 depot, not at the neighbour

---
 src/solver/improvement/local_search.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/improvement/local_search.rs b/src/solver/improvement/local_search.rs
index 5085db1..61c3a11 100644
--- a/src/solver/improvement/local_search.rs
+++ b/src/solver/improvement/local_search.rs
@@ -199,10 +199,10 @@ impl LocalSearch {
                         let v_pred = (*v).predecessor;
                         if (*v_pred).is_depot() {
                             for m in moves.depot.iter() {
-                                let delta = m.delta(&self, u, v);
+                                let delta = m.delta(&self, u, v_pred);
                                 if delta.approx_lt(0.0) {
                                     self.move_count += 1;
-                                    m.perform(self, u, v);
+                                    m.perform(self, u, v_pred);
                                     route_u = (*u).route;
                                     improvement = true;
                                     continue 'v_loop;
-- 
2.43.0


From 19fd8563ff4e15084ad75b610fb9212180a4527d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:49 +0000
Subject: [PATCH 16/28] fix: local search could make and undo a move forever
 over rounding errors of large penalties

---
 src/solver/improvement/local_search.rs    | 27 ++++++++++++++++++++---
 src/solver/improvement/moves/swap_star.rs |  2 +-
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/solver/improvement/local_search.rs b/src/solver/improvement/local_search.rs
index 61c3a11..f36526b 100644
--- a/src/solver/improvement/local_search.rs
+++ b/src/solver/improvement/local_search.rs
@@ -185,7 +185,7 @@ impl LocalSearch {
                         // First, all the moves for the pair of customers are attempted
                         for m in moves.neighbor.iter() {
                             let delta = m.delta(&self, u, v);
-                            if delta.approx_lt(0.0) {
+                            if self.is_improvement(delta, route_u, route_v) {
                                 self.move_count += 1;
                                 m.perform(self, u, v);
                                 route_u = (*u).route;
@@ -200,7 +200,7 @@ impl LocalSearch {
                         if (*v_pred).is_depot() {
                             for m in moves.depot.iter() {
                                 let delta = m.delta(&self, u, v_pred);
-                                if delta.approx_lt(0.0) {
+                                if self.is_improvement(delta, route_u, route_v) {
                                     self.move_count += 1;
                                     m.perform(self, u, v_pred);
                                     route_u = (*u).route;
@@ -223,7 +223,7 @@ impl LocalSearch {
                     let v = (*route_v).start_depot;
                     for m in moves.empty_route.iter() {
                         let delta = m.delta(&self, u, v);
-                        if delta.approx_lt(0.0) {
+                        if self.is_improvement(delta, (*u).route, route_v) {
                             self.move_count += 1;
                             m.perform(self, u, v);
                             improvement = true;
@@ -264,6 +264,27 @@ impl LocalSearch {
         }
     }
 
+    /// Whether a change in the cost of the two routes is an improvement, and not only a rounding error.
+    ///
+    /// Rounding errors grow with the penalties, and no fixed epsilon keeps a move that gains nothing
+    /// else from being made and undone forever
+    #[inline]
+    pub unsafe fn is_improvement(
+        &self,
+        delta: f64,
+        r1_ptr: *const LinkRoute,
+        r2_ptr: *const LinkRoute,
+    ) -> bool {
+        if !delta.approx_lt(0.0) {
+            return false;
+        }
+        let r1 = &*r1_ptr;
+        let r2 = &*r2_ptr;
+        let load = r1.load + r2.load + self.ctx.problem.vehicle.cap;
+        let magnitude = r1.cost + r2.cost + load * self.penalty_capacity;
+        delta < -64.0 * f64::EPSILON * magnitude
+    }
+
     fn update_individual(&self, individual: &mut Individual) {
         // Clear the genotype
         individual.genotype.clear();
diff --git a/src/solver/improvement/moves/swap_star.rs b/src/solver/improvement/moves/swap_star.rs
index 12ffb74..38be19b 100644
--- a/src/solver/improvement/moves/swap_star.rs
+++ b/src/solver/improvement/moves/swap_star.rs
@@ -147,7 +147,7 @@ impl SwapStar {
         }
 
         // Return false if the move does not reduce the objective function
-        if best_move.cost.approx_gte(0.0) {
+        if !ls.is_improvement(best_move.cost, r1_ptr, r2_ptr) {
             return false;
         }
 
-- 
2.43.0


From 1d7c74648322e0143a71faf79ce5ff38e90fa0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:25 +0000
Subject: [PATCH 17/28] fix: keep the penalty within its bounds during elite
 education

---
 src/solver/improvement/ruin_recreate/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/solver/improvement/ruin_recreate/mod.rs b/src/solver/improvement/ruin_recreate/mod.rs
index 67bd965..59889bb 100644
--- a/src/solver/improvement/ruin_recreate/mod.rs
+++ b/src/solver/improvement/ruin_recreate/mod.rs
@@ -230,6 +230,10 @@ impl RuinRecreate {
                         } else {
                             config.penalty_capacity *= config.penalty_inc_multiplier;
                         }
+                        // Keep the penalty in the range of the genetic search: an infinite one makes
+                        // costs of feasible routes not a number, and zero never rises again
+                        config.penalty_capacity =
+                            0.0001f64.max(10_000_000.0f64.min(config.penalty_capacity));
                     }
 
                     // Reevaluate the solutions
-- 
2.43.0


From f902577d46050cbaa631ac812ae830dae1eb4165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:25 +0000
Subject: [PATCH 18/28] fix: refuse problem files with numbers that are not
 finite

---
 src/utils/parser.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/utils/parser.rs b/src/utils/parser.rs
index ae5dd0f..93ff819 100644
--- a/src/utils/parser.rs
+++ b/src/utils/parser.rs
@@ -69,6 +69,12 @@ impl ProblemParser {
         let demands = Self::parse_demands(&lines, dimension);
         assert_eq!(coords.len(), dimension, "Missing node coordinates");
         assert_eq!(demands.len(), dimension, "Missing demands");
+        assert!(
+            capacity.is_finite()
+                && demands.iter().all(|demand| demand.is_finite())
+                && coords.iter().all(|c| c.lng.is_finite() && c.lat.is_finite()),
+            "Capacity, coordinates and demands must be finite numbers"
+        );
         let nodes = Self::create_nodes(coords, demands);
         let vehicle = Self::create_vehicle(0, capacity);
 
@@ -84,6 +90,10 @@ impl ProblemParser {
                     assert_eq!(matrix.len(), dimension - 1, "Missing edge weight rows");
                     for (row_number, row) in matrix.iter().enumerate() {
                         assert_eq!(row.len(), row_number + 1, "Wrong edge weight row length");
+                        assert!(
+                            row.iter().all(|weight| weight.is_finite()),
+                            "Edge weights must be finite numbers"
+                        );
                     }
                     self.matrix = Some(matrix);
                 }
-- 
2.43.0


From 8f7001dc3692a339b5a0612ef4270a84dd86f380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:25 +0000
Subject: [PATCH 19/28] fix: decomposed runs printed debug output between the
 solutions on standard output

---
 src/solver/genetic/decomposition.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/solver/genetic/decomposition.rs b/src/solver/genetic/decomposition.rs
index e625dd9..8582166 100644
--- a/src/solver/genetic/decomposition.rs
+++ b/src/solver/genetic/decomposition.rs
@@ -81,18 +81,18 @@ impl Metaheuristic for DecomposedGeneticAlgorithm {
                 // panic!("{:?}", self.global_solution);
                 // println!("{:?}", self.global_solution);
                 // self.global_solution.print();
-                println!(
+                log::debug!(
                     "Global before decomp: {}",
                     self.global_solution.penalized_cost()
                 );
                 let mut decomposition = Decomposition::new(&mut self.global_solution, ctx);
-                println!(
+                log::debug!(
                     "Sub solution before: {}",
                     decomposition.solution.penalized_cost()
                 );
                 decomposition.run();
                 decomposition.finish(ctx);
-                println!(
+                log::debug!(
                     "Global after before: {}",
                     self.global_solution.penalized_cost()
                 );
@@ -142,7 +142,7 @@ impl<'a> Decomposition<'a> {
         sub_ctx.config.borrow_mut().num_vehicles -= remaining_routes;
         sub_solution.sort_routes(&sub_ctx);
         sub_solution.evaluate(&sub_ctx);
-        println!("Decomposed size: {}", sub_ctx.problem.dim());
+        log::debug!("Decomposed size: {}", sub_ctx.problem.dim());
         Self {
             global,
             mapping,
@@ -156,7 +156,7 @@ impl<'a> Decomposition<'a> {
             let mut config = self.ctx.config.borrow_mut();
             config.elite_education = false;
             config.max_iterations = Some(2000);
-            println!("{:?}", config);
+            log::debug!("{:?}", config);
         }
 
         let mut sub_ga = GeneticAlgorithm::new(&self.ctx);
-- 
2.43.0


From 0c1c51b2376f8691297620d1f24c6a4549c0a0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:37 +0000
Subject: [PATCH 20/28] fix: the contest script could not start a rounded run
 and rounded the others

-r needs a value; paths with blanks are one argument.
---
 HGSRR-DIMACS.sh | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/HGSRR-DIMACS.sh b/HGSRR-DIMACS.sh
index 9f27d71..f4dd854 100755
--- a/HGSRR-DIMACS.sh
+++ b/HGSRR-DIMACS.sh
@@ -8,14 +8,14 @@ example () {
     echo "Example: $0 <Instance path> <Rounded> <Time limit>"
 }
 
-if [ $INSTANCE = "" ]
+if [ "$INSTANCE" = "" ]
 then
     echo "ERROR: Instance is not provided!"
     example
     exit 1
 fi
 
-if [ $ROUNDED = "" ]
+if [ "$ROUNDED" = "" ]
 then
     echo "ERROR: Rounded is not provided!"
     example
@@ -29,9 +29,9 @@ then
     exit 1
 fi
 
-if [ $ROUNDED -eq 1 ]
+if [ "$ROUNDED" -eq 1 ]
 then
-    ./hybridcvrp $INSTANCE -t $TIME_LIMIT -r
+    ./hybridcvrp "$INSTANCE" -t "$TIME_LIMIT" -r true
 else
-    ./hybridcvrp $INSTANCE -t $TIME_LIMIT
+    ./hybridcvrp "$INSTANCE" -t "$TIME_LIMIT" -r false
 fi
-- 
2.43.0


From 20d8e4df1bf7a971da8edfaac49239380bf4cbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:29 +0000
Subject: [PATCH 21/28] fix: without SWAP* local search never opened an unused
 vehicle

The loop counter was only advanced inside the SWAP* branch, so with swap_star
off every pass looked like the first one: moves into an empty route were never
tried and every pair was tested again each time.
---
 src/solver/improvement/local_search.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/improvement/local_search.rs b/src/solver/improvement/local_search.rs
index f36526b..5431a88 100644
--- a/src/solver/improvement/local_search.rs
+++ b/src/solver/improvement/local_search.rs
@@ -259,8 +259,8 @@ impl LocalSearch {
                         }
                     }
                 }
-                loop_count += 1;
             }
+            loop_count += 1;
         }
     }
 
-- 
2.43.0


From 88273660facb9e4f4684ce74cd277612e359b0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:57 +0000
Subject: [PATCH 22/28] fix: the distance between two solutions looked at the
 depot instead of the customer

Whether a customer next to the depot in one solution is next to it in the
other was decided by the depot's own successor. Routes driven the other way
counted as different, so the population held the same solution twice; with an
unused vehicle the broken depot links did not count at all.
---
 src/solver/genetic/individual.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/genetic/individual.rs b/src/solver/genetic/individual.rs
index 481d778..634d6ba 100644
--- a/src/solver/genetic/individual.rs
+++ b/src/solver/genetic/individual.rs
@@ -115,7 +115,7 @@ impl Individual {
             // If the predecessor of self is a depot, but neither the predecessor or successor of the other is a depot
             if self.predecessor(index) == 0
                 && other.predecessor(index) != 0
-                && other.successor(0) != 0
+                && other.successor(index) != 0
             {
                 distance += 1;
             }
-- 
2.43.0


From e6ef590063724f4a2f7cd84a3b116c6aa166a3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:13 +0000
Subject: [PATCH 23/28] fix: a penalty update left the infeasible members with
 their old fitness

The members were costed and sorted anew, but parents went on being chosen by
the ranks they had before.
---
 src/solver/genetic/genetic.rs    | 1 +
 src/solver/genetic/population.rs | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solver/genetic/genetic.rs b/src/solver/genetic/genetic.rs
index f839632..018a1d0 100644
--- a/src/solver/genetic/genetic.rs
+++ b/src/solver/genetic/genetic.rs
@@ -177,6 +177,7 @@ impl GeneticAlgorithm {
         }
 
         self.population.infeasible.population.sort();
+        self.population.infeasible.update_fitness(ctx);
     }
 
     pub fn educate(&mut self, ctx: &Context) {
diff --git a/src/solver/genetic/population.rs b/src/solver/genetic/population.rs
index 0cb4255..498c98d 100644
--- a/src/solver/genetic/population.rs
+++ b/src/solver/genetic/population.rs
@@ -247,7 +247,7 @@ impl SubPopulation {
         }
     }
 
-    fn update_fitness(&mut self, ctx: &Context) {
+    pub fn update_fitness(&mut self, ctx: &Context) {
         // Set the fitness to 0.0 (best) if the population only has one individual
         if self.population.len() == 1 {
             self.population[0].fitness = 0.0;
-- 
2.43.0


From b95e6abf59ddda0fcbc645433055835016716638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:19 +0000
Subject: [PATCH 24/28] fix: the quadratic split followed old cuts when no
 split respects its load limit

With no path within the limit, the predecessors of an earlier tour were
followed, or the whole tour became one route. Fall back to the linear split,
which has no such limit.
---
 src/solver/genetic/split.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/solver/genetic/split.rs b/src/solver/genetic/split.rs
index 922b1e5..c6d240d 100644
--- a/src/solver/genetic/split.rs
+++ b/src/solver/genetic/split.rs
@@ -205,7 +205,7 @@ impl Split {
         let cap = ctx.problem.vehicle.cap;
         let capacity_factor = ctx.config.borrow().split_capacity_factor;
 
-        if ctx.config.borrow().linear_split {
+        if ctx.config.borrow().linear_split || !self.fits(ctx, individual, dim) {
             let mut queue: MyVecDeque<usize> = MyVecDeque::new(ctx.problem.dim());
             queue.push_back(0);
 
@@ -297,6 +297,27 @@ impl Split {
         num_vehicles <= max_vehicles
     }
 
+    // If the giant tour can be cut into at most `max_vehicles` routes which all respect the load limit
+    // of the Bellman-based split. If it cannot, that algorithm has no path to follow.
+    fn fits(&self, ctx: &Context, individual: &Individual, max_vehicles: usize) -> bool {
+        let limit = ctx.problem.vehicle.cap * ctx.config.borrow().split_capacity_factor;
+        let mut routes = 0;
+        let mut load = f64::INFINITY;
+        for &node in individual.genotype.iter() {
+            let demand = ctx.problem.nodes[node].demand;
+            if demand > limit {
+                return false;
+            }
+            if load + demand <= limit {
+                load += demand;
+            } else {
+                routes += 1;
+                load = demand;
+            }
+        }
+        routes <= max_vehicles
+    }
+
     pub fn split_limited_fleet(
         &mut self,
         ctx: &Context,
@@ -308,7 +329,7 @@ impl Split {
         let cap = ctx.problem.vehicle.cap;
         let capacity_factor = ctx.config.borrow().split_capacity_factor;
 
-        if ctx.config.borrow().linear_split {
+        if ctx.config.borrow().linear_split || !self.fits(ctx, individual, max_vehicles) {
             let mut queue: MyVecDeque<usize> = MyVecDeque::new(ctx.problem.dim());
 
             for k in 0..max_vehicles {
-- 
2.43.0


From a1292a93dc835f18e816797115d357d3c7ebd879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:01 +0000
Subject: [PATCH 25/28] fix: a decomposition started from a position in the
 tour as if it were a customer

The depot could be the node whose surroundings were cut out, and the last
customer never was.
---
 src/solver/genetic/decomposition.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/genetic/decomposition.rs b/src/solver/genetic/decomposition.rs
index 8582166..7533dbf 100644
--- a/src/solver/genetic/decomposition.rs
+++ b/src/solver/genetic/decomposition.rs
@@ -200,7 +200,7 @@ impl<'a> Decomposition<'a> {
                 route_for_customer[customer] = route_number;
             }
         }
-        let seed_customer = ctx.random.range_usize(0, global.genotype.len());
+        let seed_customer = global.genotype[ctx.random.range_usize(0, global.genotype.len())];
 
         let mut selected_customers: HashSet<usize, RandomState> =
             HashSet::with_capacity_and_hasher(200, ctx.random.random_state());
-- 
2.43.0


From 0152a8758cfbc790b99135a54fb43aef1e57302f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:42 +0000
Subject: [PATCH 26/28] fix: the browser interface compiles again

It still used integer coordinates, demands and capacities, a context
constructor and a builder signature that had changed and a constant that
is not there, and the clock type of the standard library, which browsers
do not have.
---
 src/solver/context.rs                         |  4 +++-
 .../improvement/ruin_recreate/schedule.rs     |  4 +++-
 src/wasm/mod.rs                               | 24 +++++++++----------
 3 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/solver/context.rs b/src/solver/context.rs
index f03c128..6b26e5a 100644
--- a/src/solver/context.rs
+++ b/src/solver/context.rs
@@ -1,5 +1,7 @@
 use std::cell::RefCell;
-use std::time::{Duration, Instant};
+use std::time::Duration;
+
+use instant::Instant;
 
 use crate::config::Config;
 use crate::models::{MatrixProvider, Problem};
diff --git a/src/solver/improvement/ruin_recreate/schedule.rs b/src/solver/improvement/ruin_recreate/schedule.rs
index 359a5b9..9f5261f 100644
--- a/src/solver/improvement/ruin_recreate/schedule.rs
+++ b/src/solver/improvement/ruin_recreate/schedule.rs
@@ -1,4 +1,6 @@
-use std::time::{Duration, Instant};
+use std::time::Duration;
+
+use instant::Instant;
 
 use crate::utils::{FloatCompare, Random};
 
diff --git a/src/wasm/mod.rs b/src/wasm/mod.rs
index bb912f2..7866fb2 100644
--- a/src/wasm/mod.rs
+++ b/src/wasm/mod.rs
@@ -4,7 +4,8 @@ use wasm_bindgen::prelude::*;
 use crate::config::Config;
 use crate::models::{Coordinate, Node, ProblemBuilder, Vehicle};
 use crate::solver::genetic::GeneticAlgorithm;
-use crate::solver::{Context, Metaheuristic, SearchHistory};
+use crate::solver::{Context, Metaheuristic};
+use crate::utils::{FloatCompare, ProblemParser};
 
 pub struct WasmProblem {
     pub nodes: Vec<Node>,
@@ -52,8 +53,11 @@ impl Solver {
     pub fn add_node(&mut self, id: usize, demand: i32, x: i32, y: i32) {
         let new_node = Node {
             id,
-            coord: Coordinate { lng: x, lat: y },
-            demand,
+            coord: Coordinate {
+                lng: x as f64,
+                lat: y as f64,
+            },
+            demand: demand as f64,
         };
         self.wasm_problem.nodes.push(new_node);
     }
@@ -61,24 +65,20 @@ impl Solver {
     pub fn add_capacity(&mut self, capacity: i32) {
         self.wasm_problem.vehicle = Some(Vehicle {
             id: 0,
-            cap: capacity,
+            cap: capacity as f64,
         });
     }
 
     pub fn load_problem(&mut self) {
         let start_time = Instant::now();
-        // Initialize search history
-        let search_history = SearchHistory::new(start_time);
-
         let problem_builder = ProblemBuilder::new(
             self.wasm_problem.nodes.clone(),
             self.wasm_problem.vehicle.take().expect("No vehicle"),
         );
-        let mut config = self.config.clone();
-
-        let problem = problem_builder.build(&mut config);
+        let mut parser = ProblemParser::new();
+        parser.problem = Some(problem_builder.build());
 
-        let ctx = Context::new(problem, config, search_history);
+        let ctx = Context::new(parser, self.config.clone(), start_time);
         self.metaheuristic = Some(GeneticAlgorithm::new(&ctx));
         self.ctx = Some(ctx);
     }
@@ -146,7 +146,7 @@ impl Solver {
             .borrow()
             .last_entry()
         {
-            if entry.solution.cost + EPSILON < self.best_cost {
+            if entry.solution.cost.approx_lt(self.best_cost) {
                 self.best_cost = entry.solution.cost;
                 return JsValue::from_serde(&entry.solution).unwrap();
             }
-- 
2.43.0


From 5e7fd035e9e16ba70d89345e70877863df1d2c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:42 +0000
Subject: [PATCH 27/28] fix: the browser interface reports the first
 improvements of a problem loaded later

The best cost of the problem before was kept, and with it every solution of
the new one that costs more was withheld.
---
 src/wasm/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wasm/mod.rs b/src/wasm/mod.rs
index 7866fb2..138b663 100644
--- a/src/wasm/mod.rs
+++ b/src/wasm/mod.rs
@@ -81,6 +81,7 @@ impl Solver {
         let ctx = Context::new(parser, self.config.clone(), start_time);
         self.metaheuristic = Some(GeneticAlgorithm::new(&ctx));
         self.ctx = Some(ctx);
+        self.best_cost = f64::INFINITY;
     }
 
     pub fn update_time_limit(&mut self, value: i32) {
-- 
2.43.0


From 74a717713b9fecbed149a42e3220cb679ce56656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:06 +0000
Subject: [PATCH 28/28] fix: a route sector that starts straight east is not
 empty

CircleSector told an empty sector by its two ends being zero, so that a first customer straight east of
the depot, whose angle is zero, was forgotten as soon as the next one was added. SWAP* then passed over
pairs of routes whose sectors do overlap.
---
 src/models/circle_sector.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/models/circle_sector.rs b/src/models/circle_sector.rs
index fcbd570..5476c6f 100644
--- a/src/models/circle_sector.rs
+++ b/src/models/circle_sector.rs
@@ -6,25 +6,33 @@ const MAX_ANGLE: i32 = 65536;
 pub struct CircleSector {
     pub start: i32,
     pub end: i32,
+    // No angle is in the sector yet. Zero for both ends does not say so: it is a direction as well
+    pub empty: bool,
 }
 
 impl CircleSector {
     pub fn new() -> Self {
-        Self { start: 0, end: 0 }
+        Self {
+            start: 0,
+            end: 0,
+            empty: true,
+        }
     }
 
     pub fn reset(&mut self) {
         self.start = 0;
         self.end = 0;
+        self.empty = true;
     }
 
     pub fn from_angle(&mut self, angle: i32) {
         self.start = angle;
         self.end = angle;
+        self.empty = false;
     }
 
     pub fn extend(&mut self, angle: i32) {
-        if self.start == 0 && self.end == 0 {
+        if self.empty {
             self.from_angle(angle);
         } else {
             if !self.is_enclosed(angle) {
-- 
2.43.0

