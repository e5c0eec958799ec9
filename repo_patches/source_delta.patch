From 410148ceb1d963fcc7bfd25d9b3299cbfba6dd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:13 +0000
Subject: [PATCH 01/42] fix: Macro_Simulator crashed with --no-prover (no
 prover statistics to read)

---
 Code/Macro_Simulator.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/Code/Macro_Simulator.py b/Code/Macro_Simulator.py
index ed3573a..d1c0974 100755
--- a/Code/Macro_Simulator.py
+++ b/Code/Macro_Simulator.py
@@ -175,13 +175,14 @@ def simulate_machine(machine : Turing_Machine.Turing_Machine,
       if sim.step_num > 0:
         sim_info.result.log10_num_steps = int(math.log10(sim.step_num))
 
-      sim_info.result.num_rules_proven = sim.prover.num_rules
-      sim_info.result.num_meta_diff_rules_proven = sim.prover.num_meta_diff_rules
-      sim_info.result.num_linear_rules_proven = sim.prover.num_linear_rules
-      sim_info.result.num_exponential_rules_proven = sim.prover.num_exponential_rules
-      sim_info.result.num_gen_rules_proven = sim.prover.num_gen_rules
-      sim_info.result.num_collatz_rules = sim.prover.num_collatz_rules
-      sim_info.result.num_proofs_failed = sim.prover.num_failed_proofs
+      if sim.prover:
+        sim_info.result.num_rules_proven = sim.prover.num_rules
+        sim_info.result.num_meta_diff_rules_proven = sim.prover.num_meta_diff_rules
+        sim_info.result.num_linear_rules_proven = sim.prover.num_linear_rules
+        sim_info.result.num_exponential_rules_proven = sim.prover.num_exponential_rules
+        sim_info.result.num_gen_rules_proven = sim.prover.num_gen_rules
+        sim_info.result.num_collatz_rules = sim.prover.num_collatz_rules
+        sim_info.result.num_proofs_failed = sim.prover.num_failed_proofs
 
     # Various Unknown conditions
     if sim.tape.compressed_size() > sim_info.parameters.max_tape_blocks:
-- 
2.43.0


From 0a6fe11a42049411c5e234d2ea96f6641f4e8be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:16 +0000
Subject: [PATCH 02/42] fix: Lin_Recur_Detect failed with a budget of one step

---
 Code/Lin_Recur_Detect.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Code/Lin_Recur_Detect.py b/Code/Lin_Recur_Detect.py
index e816422..412e14a 100644
--- a/Code/Lin_Recur_Detect.py
+++ b/Code/Lin_Recur_Detect.py
@@ -45,8 +45,10 @@ def lin_detect_not_min(tm : Turing_Machine.Simple_Machine,
   sim = Direct_Simulator.DirectSimulator(tm)
   states_last_seen = {sim.state: sim.step_num}
   sim.step()
+  steps_reset = sim.step_num
 
-  while (not max_steps or sim.step_num < max_steps) and not result.success:
+  while ((not max_steps or sim.step_num < max_steps or sim.halted)
+         and not result.success):
     # Brent's algorithm for loop detection:
     #   Instead of comparing each config to all previous configs, we try at one
     #   starting steps up til 2x those steps. Then fix at 2x and repeat.
-- 
2.43.0


From b96f1fc1adfd4d0f976155f6c62a2d2c9cbe04e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:42 +0000
Subject: [PATCH 03/42] fix: Backtracking_Filter.backtrack used
 IO.parse_ttable, which no longer exists

---
 Code/Backtracking_Filter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Code/Backtracking_Filter.py b/Code/Backtracking_Filter.py
index 95fa922..302e614 100755
--- a/Code/Backtracking_Filter.py
+++ b/Code/Backtracking_Filter.py
@@ -185,7 +185,9 @@ def backtrack_ttable(TTable, steps, max_width):
 def backtrack(tm_record, num_steps, max_width):
   info = tm_record.proto.filter.backtrack
   with IO.Timer(info.result):
-    TTable = IO.parse_ttable(tm_record.tm().ttable_str())
+    TTable = [[(trans.symbol_out, trans.dir_out, trans.state_out)
+               for trans in row]
+              for row in tm_record.tm().trans_table]
     # Run the simulator/filter on this machine
     result = backtrack_ttable(TTable, num_steps, max_width)
 
-- 
2.43.0


From bd743731be24148ed62d4411065e3ce19ddb72e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:42 +0000
Subject: [PATCH 04/42] fix: Backtracking_Filter called machines that halt on
 their first step infinite

---
 Code/Backtracking_Filter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Code/Backtracking_Filter.py b/Code/Backtracking_Filter.py
index 302e614..16689e5 100755
--- a/Code/Backtracking_Filter.py
+++ b/Code/Backtracking_Filter.py
@@ -119,6 +119,11 @@ def backtrack_single_halt(halt_state, halt_symbol,
   pos_configs = [Partial_Config(halt_state, halt_symbol)]
   max_width_seen = len(pos_configs)
   num_nodes = 0
+  if is_init_config(pos_configs[0]):
+    # Halts on the very first step.
+    return BacktrackResult(success = False, halted = True,
+                           max_steps = 0, max_width = max_width_seen,
+                           num_nodes = num_nodes)
   for i in range(steps):
     # All configurations that could lead to pos_configs in one step.
     prev_configs = []
-- 
2.43.0


From 91acf0d7500fbc4b18b31444c08e15756bc87edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:42 +0000
Subject: [PATCH 05/42] fix: Backtracking_Filter crashed on machines without
 halting cells

---
 Code/Backtracking_Filter.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/Code/Backtracking_Filter.py b/Code/Backtracking_Filter.py
index 16689e5..cbdeb28 100755
--- a/Code/Backtracking_Filter.py
+++ b/Code/Backtracking_Filter.py
@@ -159,7 +159,9 @@ def backtrack_ttable(TTable, steps, max_width):
   giving up if there are more than |max_width| possible configs."""
   # Get initial ttable info.
   halts, to_state, dir_to_symbol = get_info(TTable)
-  combined_result = None
+  # With nothing to backtrack from (no halting cells), halting is impossible.
+  combined_result = BacktrackResult(success = True, halted = False,
+                                    max_steps = 0, max_width = 0, num_nodes = 0)
   # See if all halts cannot be reached
   for halt_state, halt_symbol in halts:
     for symbol_out, dir_out, state_out in TTable[halt_state]:
@@ -179,10 +181,7 @@ def backtrack_ttable(TTable, steps, max_width):
     if not result.success:
       return result
 
-    if combined_result:
-      combined_result.merge(result)
-    else:
-      combined_result = result
+    combined_result.merge(result)
 
   # If all halt states cannot be reached, we have succeeded!
   return combined_result
-- 
2.43.0


From 802a0941a4b51be293ab146499e29ba9a230531a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:51 +0000
Subject: [PATCH 06/42] fix: CTL4 dropped tape symbols from its initial
 language and could accept halting machines

---
 Code/CTL4.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Code/CTL4.py b/Code/CTL4.py
index 24f4419..28a1d44 100755
--- a/Code/CTL4.py
+++ b/Code/CTL4.py
@@ -114,11 +114,11 @@ def test_CTL(base_tm, cutoff, block_size=1, offset=None, use_backsymbol=True, ve
         B = set([sim.tape.tape[d][1].symbol])
         if len(sim.tape.tape[d]) >= 3:
           A.add(sim.tape.tape[d][2].symbol)
-        if sim.tape.tape[d][-2].num > 2:
+        if sim.tape.tape[d][1].num > 2:
           A.add(sim.tape.tape[d][1].symbol)
       else:
         B = set([sim.tape.tape[d][2].symbol])
-        if sim.tape.tape[d][-3].num > 1:
+        if sim.tape.tape[d][2].num > 1:
           A.add(sim.tape.tape[d][2].symbol)
     # Only one non-zero symbols not in A
     # Set C to the zero symbol
-- 
2.43.0


From 271ca9eb020bc488d725309bed03300c90ea187b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:42 +0000
Subject: [PATCH 07/42] fix: quasi-halting status of repeat-in-place macro
 steps ignored states left before the repeat

---
 Code/Macro/Simulator.py      |  8 ++++++--
 Code/Macro/Turing_Machine.py | 14 ++++++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/Code/Macro/Simulator.py b/Code/Macro/Simulator.py
index fbc64c0..4defe41 100644
--- a/Code/Macro/Simulator.py
+++ b/Code/Macro/Simulator.py
@@ -181,8 +181,12 @@ class Simulator(object):
     # Apply transition
     if self.op_state == Turing_Machine.INF_REPEAT:
       self.inf_reason = io_pb2.INF_MACRO_STEP
-      # TODO(shawn): This is not 100% accurate. We should only ignore states involved in the repeat-in-place, but trans.states_last_seen could include some states before the repeat.
-      self.inf_recur_states = list(trans.states_last_seen.keys())
+      # Note: trans.states_last_seen also includes states visited before the
+      # repeat-in-place, those will never be visited again.
+      self.inf_recur_states = list(trans.inf_recur_states)
+      if self.compute_steps and self.states_last_seen is not None:
+        for state, trans_last_seen in trans.states_last_seen.items():
+          self.states_last_seen[state] = self.step_num + trans_last_seen
     # Chain move
     elif trans.state_out == self.state and trans.dir_out == self.dir and \
        self.op_state == Turing_Machine.RUNNING:
diff --git a/Code/Macro/Turing_Machine.py b/Code/Macro/Turing_Machine.py
index f3af892..2f0691e 100644
--- a/Code/Macro/Turing_Machine.py
+++ b/Code/Macro/Turing_Machine.py
@@ -52,7 +52,7 @@ class Transition(object):
                condition,
                symbol_out, state_out, dir_out,
                num_base_steps, states_last_seen,
-               condition_details = None):
+               condition_details = None, inf_recur_states = None):
     self.condition = condition
     self.condition_details = condition_details if condition_details else []
     self.symbol_out = symbol_out
@@ -60,6 +60,8 @@ class Transition(object):
     self.dir_out = dir_out
     self.num_base_steps = num_base_steps
     self.states_last_seen = states_last_seen
+    # For INF_REPEAT: The states which will be visited over and over forever.
+    self.inf_recur_states = inf_recur_states
 
   # TODO: Deprecate
   def to_legacy_tuple(self):
@@ -104,6 +106,9 @@ def sim_limited(tm, state, start_tape, pos, dir, max_loops=10_000) -> Transition
   # If `old_config` is ever repeated, we know it will repeat forever.
   # Format: (state, dir, pos, tape)
   old_config = None
+  # States visited since `old_config`.
+  recur_states = set()
+  inf_recur_states = None
   # Arbitrarily start looking for repeats after ~100 steps (~0.1ms).
   next_config_save = 128
 
@@ -113,6 +118,7 @@ def sim_limited(tm, state, start_tape, pos, dir, max_loops=10_000) -> Transition
     trans = tm.get_trans_object(symbol, state, dir)
     for state, base_last_seen in trans.states_last_seen.items():
       states_last_seen[state] = num_base_steps + base_last_seen
+      recur_states.add(state)
     num_base_steps += trans.num_base_steps
     num_loops += 1
     tape[pos] = trans.symbol_out
@@ -127,6 +133,7 @@ def sim_limited(tm, state, start_tape, pos, dir, max_loops=10_000) -> Transition
       # Found a repeated config.
       condition = INF_REPEAT
       condition_details = [pos]
+      inf_recur_states = recur_states
       break
     if num_loops >= next_config_save:
       # Brent's algorithm for loop detection:
@@ -135,6 +142,7 @@ def sim_limited(tm, state, start_tape, pos, dir, max_loops=10_000) -> Transition
       #   any repeat which starts at `init_time` and has period `period`
       #   we'll detect the repeat by step `2 * max(init_time, period)`.
       old_config = (state, dir, pos, list(tape))
+      recur_states = set()
       next_config_save *= 2
 
     if num_loops > max_loops:
@@ -147,6 +155,7 @@ def sim_limited(tm, state, start_tape, pos, dir, max_loops=10_000) -> Transition
       # Base machine stopped running (HALT, INF_REPEAT, etc.)
       condition = trans.condition
       condition_details = trans.condition_details + [pos]
+      inf_recur_states = trans.inf_recur_states
       break
     if not (0 <= pos < len(tape)):
       # We ran off one end of the macro symbol. We're done.
@@ -160,7 +169,8 @@ def sim_limited(tm, state, start_tape, pos, dir, max_loops=10_000) -> Transition
     # Block_Macro_Machine, but Backsymbol_Macro_Machine will need to modify
     # this and state_out.
     symbol_out=tape, state_out=state, dir_out=dir,
-    num_base_steps=num_base_steps, states_last_seen=states_last_seen)
+    num_base_steps=num_base_steps, states_last_seen=states_last_seen,
+    inf_recur_states=inf_recur_states)
 
 
 class Turing_Machine(object):
-- 
2.43.0


From 5b61a5c675849c5e2d75c1fc2a5f9895e576e523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:42 +0000
Subject: [PATCH 08/42] fix: Quick_Sim printed a wrong step count with
 --exp-linear-rules

---
 Code/Quick_Sim.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Code/Quick_Sim.py b/Code/Quick_Sim.py
index 1f7054f..48e54b1 100755
--- a/Code/Quick_Sim.py
+++ b/Code/Quick_Sim.py
@@ -41,6 +41,10 @@ def run(machine, block_size, back, prover, recursive, options):
     machine = Turing_Machine.Backsymbol_Macro_Machine(machine,
       max_sim_steps_per_symbol=options.max_steps_in_backsymbol)
 
+  # We can't compute steps when evaluating Linear_Rules (see Macro_Simulator).
+  if options.exp_linear_rules:
+    options.compute_steps = False
+
   global sim  # For debugging, especially with --manual
   sim = Simulator.Simulator(machine, options)
 
-- 
2.43.0


From 02b2bf8b8b72c4e4edbe7a4408437d0f73fbaa2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:35 +0000
Subject: [PATCH 09/42] fix: records did not store allow_no_halt, so resuming
 an --allow-no-halt enumeration lost machines

---
 Code/IO/TM_Record.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Code/IO/TM_Record.py b/Code/IO/TM_Record.py
index 025d812..d5ec99b 100644
--- a/Code/IO/TM_Record.py
+++ b/Code/IO/TM_Record.py
@@ -150,6 +150,7 @@ class TM_Record:
   def update_tm(self, tm_enum : TM_Enum.TM_Enum) -> None:
     self.tme = tm_enum
     write_tm(self.tme.tm, self.proto.tm)
+    self.proto.tm.allow_no_halt = self.tme.allow_no_halt
 
   def tm_enum(self):
     if not self.tme:
-- 
2.43.0


From c09d06b8efef1ccba91e2c59524f4c270ff2c72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:57 +0000
Subject: [PATCH 10/42] fix: MPI work queue used fractional queue sizes as list
 indices and crashed

---
 Code/MPI_Work_Queue.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Code/MPI_Work_Queue.py b/Code/MPI_Work_Queue.py
index d0ebed7..ae675ce 100644
--- a/Code/MPI_Work_Queue.py
+++ b/Code/MPI_Work_Queue.py
@@ -131,7 +131,7 @@ class MPI_Worker_Work_Queue(Work_Queue.Work_Queue):
     while comm.Iprobe(source=self.master, tag=UPDATE_MAX_QUEUE_SIZE):
       self.max_queue_size = comm.recv(source=self.master,
                                       tag=UPDATE_MAX_QUEUE_SIZE)
-      self.target_queue_size = self.max_queue_size * 3 / 4
+      self.target_queue_size = self.max_queue_size * 3 // 4
     self.update_max_queue_size_time += self.time_diff()
 
   def _send_extra(self):
@@ -261,7 +261,7 @@ class Master(object):
       worker_queue_size[0] = len(self.master_queue)
       max_queue_size = max(sum(worker_queue_size) // len(worker_queue_size),
                            MAX_NUM_JOBS_PER_BATCH)
-      target_queue_size = max_queue_size * 3 / 4
+      target_queue_size = max_queue_size * 3 // 4
       if time.time() - self.last_update_time > self.update_interval:
         for rank in range(1, num_proc):
           if update_requests[rank]:
-- 
2.43.0


From 468e5f456bd176cb3a7d5c461ecc821bbd704572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:12 +0000
Subject: [PATCH 11/42] fix: list form of machines read back every cell as the
 first one, modified the machine and grew when rewritten

---
 Code/IO/TM_Record.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Code/IO/TM_Record.py b/Code/IO/TM_Record.py
index d5ec99b..6465500 100644
--- a/Code/IO/TM_Record.py
+++ b/Code/IO/TM_Record.py
@@ -91,14 +91,16 @@ def unpack_tm(pack : bytes) -> Turing_Machine.Simple_Machine:
                                            symbols = list(range(symbol_in)))
 
 def tm_to_list(tm : Turing_Machine.Simple_Machine, tm_list : io_pb2.TMList) -> None:
+  del tm_list.ttable_list[:]
   tm_list.num_states = tm.num_states
   tm_list.num_symbols = tm.num_symbols
   for state in range(tm.num_states):
     for symbol in range(tm.num_symbols):
       trans = tm.get_trans_object(symbol, state)
       if trans.condition == Turing_Machine.UNDEFINED:
-        trans.symbol_out = -1
-      tm_list.ttable_list.append(trans.symbol_out)
+        tm_list.ttable_list.append(-1)
+      else:
+        tm_list.ttable_list.append(trans.symbol_out)
       tm_list.ttable_list.append(trans.dir_out)
       tm_list.ttable_list.append(trans.state_out)
 
@@ -108,6 +110,7 @@ def tm_from_list(tm_list : io_pb2.TMList) -> Turing_Machine.Simple_Machine:
   for state_in in range(tm_list.num_states):
     for symbol_in in range(tm_list.num_symbols):
       symbol_out, dir_out, state_out = tm_list.ttable_list[i:i+3]
+      i += 3
       if symbol_out != -1:
         quints.append((state_in, symbol_in, symbol_out, dir_out, state_out))
   return Turing_Machine.tm_from_quintuples(quints,
-- 
2.43.0


From 266e6ee6fe035f707a8c745aa0964d5782748252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:12 +0000
Subject: [PATCH 12/42] fix: machines with 8 symbols, and halting machines with
 more than 7 states or symbols, could not be stored

---
 Code/IO/TM_Record.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Code/IO/TM_Record.py b/Code/IO/TM_Record.py
index 6465500..c4c672a 100644
--- a/Code/IO/TM_Record.py
+++ b/Code/IO/TM_Record.py
@@ -129,7 +129,7 @@ def read_tm(proto_tm : io_pb2.TuringMachine) -> Turing_Machine.Simple_Machine:
     raise NotImplementedError(f"Unexpected ttable type: {type}")
 
 def write_tm(tm : Turing_Machine.Simple_Machine, proto_tm : io_pb2.TuringMachine):
-  if tm.num_states <= 7 and tm.num_symbols <= 8:
+  if tm.num_states <= 7 and tm.num_symbols <= 7:
     proto_tm.ttable_packed = pack_tm(tm)
   else:
     tm_to_list(tm, proto_tm.ttable_list)
@@ -181,7 +181,7 @@ class TM_Record:
     self.tme.set_halt_trans(
       state_in = self.proto.status.halt_status.from_state,
       symbol_in = self.proto.status.halt_status.from_symbol)
-    self.proto.tm.ttable_packed = pack_tm(self.tme.tm)
+    write_tm(self.tme.tm, self.proto.tm)
 
 
   def is_unknown_halting(self):
-- 
2.43.0


From 9e00ea16a2c72c833d77a68ad1ac90287319feda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:12 +0000
Subject: [PATCH 13/42] fix: records storing the machine as text (deprecated
 form) could not be read

---
 Code/IO/TM_Record.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/IO/TM_Record.py b/Code/IO/TM_Record.py
index c4c672a..2b41d65 100644
--- a/Code/IO/TM_Record.py
+++ b/Code/IO/TM_Record.py
@@ -122,7 +122,7 @@ def read_tm(proto_tm : io_pb2.TuringMachine) -> Turing_Machine.Simple_Machine:
   if type == "ttable_packed":
     return unpack_tm(proto_tm.ttable_packed)
   elif type == "ttable_str":
-    return IO.StdText.parse_tm(proto_tm.ttable_str)
+    return parse_tm(proto_tm.ttable_str)
   elif type == "ttable_list":
     return tm_from_list(proto_tm.ttable_list)
   else:
-- 
2.43.0


From 143456aa853a1f53de1e3fafeaab6e55aa2a9b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:12 +0000
Subject: [PATCH 14/42] fix: compressed text and Morphett files could be
 neither written nor read

---
 Code/IO/Morphett.py | 4 ++--
 Code/IO/StdText.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Code/IO/Morphett.py b/Code/IO/Morphett.py
index 31ab454..9a9f15f 100644
--- a/Code/IO/Morphett.py
+++ b/Code/IO/Morphett.py
@@ -21,7 +21,7 @@ class Writer:
 
   def __enter__(self):
     if ".gz" in self.outfilename.suffixes:
-      self.outfile = gzip.open(self.outfilename, "w")
+      self.outfile = gzip.open(self.outfilename, "wt")
     else:
       self.outfile = open(self.outfilename, "w")
     return self
@@ -59,7 +59,7 @@ class Reader:
 
   def __enter__(self):
     if ".gz" in self.infilename.suffixes:
-      self.infile = gzip.open(self.infilename, "r")
+      self.infile = gzip.open(self.infilename, "rt")
     else:
       self.infile = open(self.infilename, "r")
     return self
diff --git a/Code/IO/StdText.py b/Code/IO/StdText.py
index b5b3c37..5ad55d7 100644
--- a/Code/IO/StdText.py
+++ b/Code/IO/StdText.py
@@ -36,7 +36,7 @@ class Writer:
   def __enter__(self):
     if self.outfilename:
       if ".gz" in self.outfilename.suffixes:
-        self.outfile = gzip.open(self.outfilename, "w")
+        self.outfile = gzip.open(self.outfilename, "wt")
       else:
         self.outfile = open(self.outfilename, "w")
     return self
@@ -80,7 +80,7 @@ class Reader:
   def __enter__(self):
     if self.infilename:
       if ".gz" in self.infilename.suffixes:
-        self.infile = gzip.open(self.infilename, "r")
+        self.infile = gzip.open(self.infilename, "rt")
       else:
         self.infile = open(self.infilename, "r")
     return self
-- 
2.43.0


From fee1b85e642f85937689ae5b9bedbc767ed980a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:12 +0000
Subject: [PATCH 15/42] fix: writing a machine in Morphett format modified the
 machine

---
 Code/IO/Morphett.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Code/IO/Morphett.py b/Code/IO/Morphett.py
index 9a9f15f..17d90b2 100644
--- a/Code/IO/Morphett.py
+++ b/Code/IO/Morphett.py
@@ -33,7 +33,7 @@ class Writer:
   def write_record(self, tm_record : TM_Record) -> None:
     tm = tm_record.tm()
     # Morphett uses _ for blank symbol.
-    tm.symbols[0] = "_"
+    symbols = ["_"] + list(tm.symbols[1:])
     for state_in in range(tm.num_states):
       for symbol_in in range(tm.num_symbols):
         trans = tm.get_trans_object(symbol_in, state_in)
@@ -43,8 +43,8 @@ class Writer:
           else:
             state_out = tm.states[trans.state_out]
           # Write out one quintuple per line.
-          print(tm.states[state_in], tm.symbols[symbol_in],
-                tm.symbols[trans.symbol_out], DIRS[trans.dir_out], state_out,
+          print(tm.states[state_in], symbols[symbol_in],
+                symbols[trans.symbol_out], DIRS[trans.dir_out], state_out,
                 file=self.outfile)
 
   def flush(self):
-- 
2.43.0


From c6073f3d40f86a912508703e92a5fbc20456d685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:12 +0000
Subject: [PATCH 16/42] fix: BBC index files could not be read and skip_record
 reported the wrong result

---
 Code/IO/BBC.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Code/IO/BBC.py b/Code/IO/BBC.py
index a08720b..0dde688 100644
--- a/Code/IO/BBC.py
+++ b/Code/IO/BBC.py
@@ -107,9 +107,8 @@ class Reader:
 
   def skip_record(self) -> bool:
     """Skip ahead 1 record. Return False if no records left in file."""
-    # whence = 1 means (from current position).
-    pb_bytes = self.infile.seek(_BYTES_PER_RECORD, 1)
-    return pb_bytes == _BYTES_PER_RECORD
+    tm_bytes = self.infile.read(_BYTES_PER_RECORD)
+    return len(tm_bytes) == _BYTES_PER_RECORD
 
   def get_tm(self, tm_num) -> TM_Record:
     # whence = 0 means (from the start).
@@ -147,6 +146,7 @@ class IndexReader:
   def __enter__(self):
     self.db_reader.__enter__()
     self.index_file = open(self.index_filename, "rb")
+    return self
 
   def __exit__(self, *args):
     self.db_reader.__exit__(args)
@@ -164,7 +164,7 @@ class IndexReader:
         return
       elif len(n_bytes) != 4:
         raise IO_Error("Unexpected EOF while reading block "
-                       f"(expected 4 bytes, got {len(len_bytes)}).")
+                       f"(expected 4 bytes, got {len(n_bytes)}).")
       # Big Endian (>), 4 bytes (L).
       yield struct.unpack(">L", n_bytes)[0]
 
@@ -178,6 +178,7 @@ class TextIndexReader:
   def __enter__(self):
     self.db_reader.__enter__()
     self.index_file = open(self.index_filename, "r")
+    return self
 
   def __exit__(self, *args):
     self.db_reader.__exit__(args)
-- 
2.43.0


From a2ecef623999e91ec394cdc7835fb1a4e3989100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:25 +0000
Subject: [PATCH 17/42] fix: powers whose exponent is a formula with value 0
 were compared as if they were huge

---
 Code/Exp_Int.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Exp_Int.py b/Code/Exp_Int.py
index e412781..139925b 100644
--- a/Code/Exp_Int.py
+++ b/Code/Exp_Int.py
@@ -160,7 +160,7 @@ class ExpTerm:
     if self.is_const:
       exp_as_int = try_eval(self.exponent)
 
-      if not exp_as_int:
+      if exp_as_int is None:
         assert isinstance(self.exponent, ExpInt), self.exponent
         # For large enough exponent, the coeficient and even base don't have much effect.
         (height, top) = self.exponent.tower_value
-- 
2.43.0


From 4a43612b3772ee324fe86c6c9fdd9fe1dcfca381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:33 +0000
Subject: [PATCH 18/42] fix: huge numbers on different sides of the 10^1000
 evaluation threshold were compared wrongly

---
 Code/Exp_Int.py | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/Code/Exp_Int.py b/Code/Exp_Int.py
index 139925b..f5aba49 100644
--- a/Code/Exp_Int.py
+++ b/Code/Exp_Int.py
@@ -1,6 +1,7 @@
 """Library for representing very large integers of the form: a b^n + c"""
 
 from fractions import Fraction
+from functools import cmp_to_key
 import math
 
 from Algebraic_Expression import Expression, min_val, variables, substitute
@@ -109,6 +110,23 @@ def tower_value(x):
   else:
     return (0, abs(x))
 
+def align_towers(a, b):
+  """Tower values are not unique: 10^^height[^top] = 10^^(height+1)[^log10(top)]
+  Return (height, top_a, top_b) using a common height so that we can compare tops."""
+  height = max(a[0], b[0])
+  tops = []
+  for (h, top) in (a, b):
+    while h < height:
+      top = math.log10(top) if top > 0 else -math.inf
+      h += 1
+    tops.append(top)
+  return (height, *tops)
+
+def tower_cmp(a, b):
+  """Compare two tower values. Returns 1, 0 or -1 for a > b, a == b or a < b."""
+  (_, top_a, top_b) = align_towers(a, b)
+  return (top_a > top_b) - (top_a < top_b)
+
 def sign(x):
   if isinstance(x, ExpInt):
     return x.sign
@@ -306,16 +324,18 @@ class ExpInt:
       else:
         # At least one term is too large to fit in an `int`.
         max_pos_tower = max((term.tower_value for term in self.terms
-                             if term.sign > 0), default = tower_value(0))
+                             if term.sign > 0), default = tower_value(0),
+                            key = cmp_to_key(tower_cmp))
         max_neg_tower = max((term.tower_value for term in self.terms
-                             if term.sign < 0), default = tower_value(0))
-        if max_pos_tower == max_neg_tower:
+                             if term.sign < 0), default = tower_value(0),
+                            key = cmp_to_key(tower_cmp))
+        self.sign = tower_cmp(max_pos_tower, max_neg_tower)
+        if self.sign == 0:
           raise ExpIntException(f"Cannot evalulate sign of ExpInt: {self}    ({max_pos_tower} == {max_neg_tower})")
-        self.tower_value = max(max_pos_tower, max_neg_tower)
-        if max_neg_tower > max_pos_tower:
-          self.sign = -1
+        if self.sign > 0:
+          self.tower_value = max_pos_tower
         else:
-          self.sign = 1
+          self.tower_value = max_neg_tower
 
         # Tweak tower value for denom
         if self.denom != 1:
@@ -477,7 +497,7 @@ class ExpInt:
       # self > 0 > other
       return True
 
-    return self.tower_value > tower_value(other)
+    return tower_cmp(self.tower_value, tower_value(other)) > 0
 
   def __ge__(self, other):
     assert is_const(self), self
@@ -492,7 +512,7 @@ class ExpInt:
       # self > 0 > other
       return True
 
-    return self.tower_value >= tower_value(other)
+    return tower_cmp(self.tower_value, tower_value(other)) >= 0
 
   # Boilerplate
   def __neg__(self):
-- 
2.43.0


From b4986d4e1a9f6f070159959d99c89f5488dc090c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:59 +0000
Subject: [PATCH 19/42] fix: sign of sums of huge numbers was decided by the
 largest single term, even if others outweigh it

---
 Code/Exp_Int.py | 49 ++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 42 insertions(+), 7 deletions(-)

diff --git a/Code/Exp_Int.py b/Code/Exp_Int.py
index f5aba49..fced7f1 100644
--- a/Code/Exp_Int.py
+++ b/Code/Exp_Int.py
@@ -127,6 +127,24 @@ def tower_cmp(a, b):
   (_, top_a, top_b) = align_towers(a, b)
   return (top_a > top_b) - (top_a < top_b)
 
+def tower_dominates(a, b, num_parts):
+  """Is the larger of `a` and `b` sure to be more than `num_parts` times the other?"""
+  if 0 in (a[1], b[1]):
+    return a[1] != b[1]
+  if a[0] == b[0] == 0:
+    return max(a[1], b[1]) > num_parts * min(a[1], b[1])
+  (height, top_a, top_b) = align_towers(a, b)
+  if height > 1:
+    num_parts = 1
+  # Tops are only approximate, so allow for some rounding error.
+  top_a = max(top_a, 0)
+  top_b = max(top_b, 0)
+  if max(top_a, top_b) > 2**50:
+    (top_a, top_b) = (int(top_a), int(top_b))
+    return abs(top_a - top_b) > num_parts + max(top_a, top_b) // 10**12
+  else:
+    return abs(top_a - top_b) > math.log10(num_parts) + max(top_a, top_b) * 1e-12
+
 def sign(x):
   if isinstance(x, ExpInt):
     return x.sign
@@ -240,6 +258,17 @@ class ExpTerm:
     return ExpTerm(self.base, self.coef * other.coef,
                    self.exponent + other.exponent)
 
+def combine_terms(terms):
+  """Combine sum of ExpTerms into one (if their exponents are close together)."""
+  exps = [try_eval(term.exponent) for term in terms]
+  if len(terms) == 1 or None in exps or max(exps) - min(exps) > EXP_THRESHOLD:
+    return terms
+  base = terms[0].base
+  min_exp = min(exps)
+  coef = sum(term.coef * base**(exp - min_exp)
+             for (term, exp) in zip(terms, exps))
+  return [ExpTerm(base, coef, min_exp)] if coef != 0 else []
+
 def normalize_terms(terms):
   """Simplify sum of ExpTerms by combining ones that we can."""
   assert len({term.base for term in terms}) == 1, terms
@@ -323,19 +352,25 @@ class ExpInt:
 
       else:
         # At least one term is too large to fit in an `int`.
-        max_pos_tower = max((term.tower_value for term in self.terms
-                             if term.sign > 0), default = tower_value(0),
-                            key = cmp_to_key(tower_cmp))
-        max_neg_tower = max((term.tower_value for term in self.terms
-                             if term.sign < 0), default = tower_value(0),
-                            key = cmp_to_key(tower_cmp))
+        parts = [(term.sign, term.tower_value)
+                 for term in combine_terms(self.terms)]
+        if self.const or not parts:
+          parts.append((sign(self.const), tower_value(self.const)))
+        max_pos_tower = max((tower for (sgn, tower) in parts if sgn > 0),
+                            default = tower_value(0), key = cmp_to_key(tower_cmp))
+        max_neg_tower = max((tower for (sgn, tower) in parts if sgn < 0),
+                            default = tower_value(0), key = cmp_to_key(tower_cmp))
         self.sign = tower_cmp(max_pos_tower, max_neg_tower)
-        if self.sign == 0:
+        if not tower_dominates(max_pos_tower, max_neg_tower, len(parts)):
           raise ExpIntException(f"Cannot evalulate sign of ExpInt: {self}    ({max_pos_tower} == {max_neg_tower})")
         if self.sign > 0:
           self.tower_value = max_pos_tower
         else:
           self.tower_value = max_neg_tower
+        if self.tower_value[0] == 0:
+          # This is only one part of the sum, so it is not the precise value.
+          (_, top, _) = align_towers(self.tower_value, (1, 0))
+          self.tower_value = (1, top)
 
         # Tweak tower value for denom
         if self.denom != 1:
-- 
2.43.0


From 8baf5302f0c5b0136d37c184884b20451f9c8bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:53 +0000
Subject: [PATCH 20/42] fix: comparing huge numbers which are close together
 gave wrong answers

---
 Code/Exp_Int.py | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/Code/Exp_Int.py b/Code/Exp_Int.py
index fced7f1..fab6ee8 100644
--- a/Code/Exp_Int.py
+++ b/Code/Exp_Int.py
@@ -456,6 +456,8 @@ class ExpInt:
                     denom = self.denom)
 
     if isinstance(other, ExpInt):
+      if self.base != other.base:
+        raise ExpIntException("ExpInt add: base mismatch")
       new_denom = lcm(self.denom, other.denom)
       ns = new_denom // self.denom
       no = new_denom // other.denom
@@ -518,36 +520,31 @@ class ExpInt:
     return ExpInt(self.terms, self.const, self.denom * other_int)
 
 
-  # Basic comparision using tower notation.
-  def __gt__(self, other):
+  # Comparision using tower notation (unless values are too close together).
+  def cmp(self, other):
     assert is_const(self), self
+    if self.sign != sign(other):
+      return 1 if self.sign > sign(other) else -1
+
+    (tower_s, tower_o) = (self.tower_value, tower_value(other))
+    if tower_dominates(tower_s, tower_o, 1):
+      return self.sign * tower_cmp(tower_s, tower_o)
+    else:
+      return sign(self - other)
+
+  def __gt__(self, other):
     if other == math.inf:
       return False
     if other == -math.inf:
       return True
-
-    if self.sign < 0:
-      return not (-self >= -other)
-    if sign(other) < 0:
-      # self > 0 > other
-      return True
-
-    return tower_cmp(self.tower_value, tower_value(other)) > 0
+    return self.cmp(other) > 0
 
   def __ge__(self, other):
-    assert is_const(self), self
     if other == math.inf:
       return False
     if other == -math.inf:
       return True
-
-    if self.sign < 0:
-      return not (-self > -other)
-    if sign(other) < 0:
-      # self > 0 > other
-      return True
-
-    return tower_cmp(self.tower_value, tower_value(other)) >= 0
+    return self.cmp(other) >= 0
 
   # Boilerplate
   def __neg__(self):
-- 
2.43.0


From 5c9043c1b2df4c8c8dadf657ac1c94e402c28983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:01 +0000
Subject: [PATCH 21/42] fix: remainder of a power whose exponent is a small
 formula raised TypeError

---
 Code/Exp_Int.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Exp_Int.py b/Code/Exp_Int.py
index fab6ee8..836809d 100644
--- a/Code/Exp_Int.py
+++ b/Code/Exp_Int.py
@@ -238,7 +238,7 @@ class ExpTerm:
     return new_coef * exp_int(self.base, new_exp)
 
   def mod(self, m : int) -> int:
-    return (exp_mod(self.base, self.exponent, m) * self.coef) % m
+    return (exp_mod(self.base, try_simplify(self.exponent), m) * self.coef) % m
 
   def mul_int(self, n : int):
     assert isinstance(n, int), n
-- 
2.43.0


From 602d868ec815cb414ce0a1db54311acd685e2e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:27 +0000
Subject: [PATCH 22/42] fix: comparing huge numbers ignored smaller parts of
 sums and the base of towers; cancelled sums failed an assertion

---
 Code/Exp_Int.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/Code/Exp_Int.py b/Code/Exp_Int.py
index 836809d..539dd49 100644
--- a/Code/Exp_Int.py
+++ b/Code/Exp_Int.py
@@ -145,6 +145,13 @@ def tower_dominates(a, b, num_parts):
   else:
     return abs(top_a - top_b) > math.log10(num_parts) + max(top_a, top_b) * 1e-12
 
+def num_parts(x):
+  """Upper bound for how many times too small (or large) `tower_value(x)` can be."""
+  if isinstance(x, ExpInt):
+    return len(x.terms) + 1
+  else:
+    return 1
+
 def sign(x):
   if isinstance(x, ExpInt):
     return x.sign
@@ -201,6 +208,9 @@ class ExpTerm:
         # For large enough exponent, the coeficient and even base don't have much effect.
         (height, top) = self.exponent.tower_value
         assert top >= 0, top
+        if height == 1:
+          # self = b^(10^top) = 10^(10^(top + log10(log10(b))))
+          top = prec_add(top, math.log10(math.log10(self.base)))
         # self = b^(10^^height[^top]) ~= 10^^(height+1)[^top]
         self.tower_value = (height + 1, top)
 
@@ -342,7 +352,8 @@ class ExpInt:
   def eval(self):
     self.is_const = all(term.is_const for term in self.terms)
     if self.is_const:
-      term_values = [try_eval(term) for term in self.terms]
+      terms = combine_terms(self.terms)
+      term_values = [try_eval(term) for term in terms]
       if all(term_values):
         # All terms are small enough to fit in `int`s. We can represent the sum
         # percisely here.
@@ -352,9 +363,8 @@ class ExpInt:
 
       else:
         # At least one term is too large to fit in an `int`.
-        parts = [(term.sign, term.tower_value)
-                 for term in combine_terms(self.terms)]
-        if self.const or not parts:
+        parts = [(term.sign, term.tower_value) for term in terms]
+        if self.const:
           parts.append((sign(self.const), tower_value(self.const)))
         max_pos_tower = max((tower for (sgn, tower) in parts if sgn > 0),
                             default = tower_value(0), key = cmp_to_key(tower_cmp))
@@ -527,7 +537,8 @@ class ExpInt:
       return 1 if self.sign > sign(other) else -1
 
     (tower_s, tower_o) = (self.tower_value, tower_value(other))
-    if tower_dominates(tower_s, tower_o, 1):
+    # The tower value of a sum only considers its largest part.
+    if tower_dominates(tower_s, tower_o, num_parts(self) * num_parts(other)):
       return self.sign * tower_cmp(tower_s, tower_o)
     else:
       return sign(self - other)
-- 
2.43.0


From ee49a1d436a1cfb0975331cc294064601ee60699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:06 +0000
Subject: [PATCH 23/42] fix: sums of step counts were wrong for cubes and for
 fractional coefficients

---
 Code/Macro/Proof_System.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/Code/Macro/Proof_System.py b/Code/Macro/Proof_System.py
index 588f2e6..9707795 100755
--- a/Code/Macro/Proof_System.py
+++ b/Code/Macro/Proof_System.py
@@ -1456,6 +1456,12 @@ def factor_var(term : Term, k : Variable):
     # In the common case that there are no other variables, just return an int.
     return k_pow, term.coef
 
+def clear_denominators(expr : Algebraic_Expression):
+  """Returns (integer valued) `n * expr` and `n` (the common denominator)."""
+  n = math.lcm(*(x.denominator for x in expr.scalars() if isinstance(x, Fraction)))
+  terms = tuple(Term(term.vars, ae.simp_frac(term.coef * n)) for term in expr.terms)
+  return Algebraic_Expression(terms, ae.simp_frac(expr.const * n)), n
+
 def series_sum(expr : Algebraic_Expression, k : Variable, N):
   """Sums the series expr over k = 0 to N-1 if we can."""
   if isinstance(expr, int):
@@ -1463,6 +1469,9 @@ def series_sum(expr : Algebraic_Expression, k : Variable, N):
 
   assert isinstance(expr, Algebraic_Expression), expr
   assert isinstance(k, Variable), k
+
+  # The divisions below are only exact for integer coefficients.
+  expr, denom = clear_denominators(expr)
   total = expr.const * N
   for term in expr.terms:
     k_pow, rest = factor_var(term, k)
@@ -1477,7 +1486,8 @@ def series_sum(expr : Algebraic_Expression, k : Variable, N):
     elif k_pow == 3:
       # sum_{k=0}^{N-1}(coef * k^3) = coef * (N(N-1)/2)^2
       # https://proofwiki.org/wiki/Sum_of_Sequence_of_Cubes
-      total += ((rest * N * (N - 1)) // 2)**2
+      sum_k = (N * (N - 1)) // 2
+      total += rest * sum_k * sum_k
     else:
       raise NotImplementedError(f"Cannot series sum {term} over {k}")
-  return total
+  return ae.div(total, denom) if denom != 1 else total
-- 
2.43.0


From 452e1d52e3f8e7759d7833d2c61182ca9323b6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:06 +0000
Subject: [PATCH 24/42] fix: powers with a variable exponent raised
 AssertionError or turned into floats if the exponent can be 0

---
 Code/Exp_Int.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/Code/Exp_Int.py b/Code/Exp_Int.py
index 539dd49..e651590 100644
--- a/Code/Exp_Int.py
+++ b/Code/Exp_Int.py
@@ -4,7 +4,7 @@ from fractions import Fraction
 from functools import cmp_to_key
 import math
 
-from Algebraic_Expression import Expression, min_val, variables, substitute
+from Algebraic_Expression import Expression, div, min_val, variables, substitute
 from Common import is_const
 from Math import gcd, lcm, int_pow, exp_mod, prec_mult, prec_add
 
@@ -396,8 +396,11 @@ class ExpInt:
       if -math.inf in min_terms:
         self.min_value = -math.inf
       else:
-        min_terms = sum(min_terms)
-        self.min_value = (min_terms + min_val(self.const)) / self.denom
+        min_numer = sum(min_terms) + min_val(self.const)
+        if isinstance(min_numer, int):
+          self.min_value = min_numer // self.denom
+        else:
+          self.min_value = min_numer / self.denom
         assert isinstance(self.min_value, (ExpInt, int)), self
       self.vars = set(variables(self.const) | variables(self.denom))
       for term in self.terms:
@@ -413,7 +416,7 @@ class ExpInt:
       return self
     numer = sum(term.substitute(assignment) for term in self.terms)
     numer += substitute(self.const, assignment)
-    return numer / substitute(self.denom, assignment)
+    return div(numer, substitute(self.denom, assignment))
 
   def tex_formula(self):
     return tex_formula(self)
-- 
2.43.0


From 623c6be37301f8cbb729b8a7eb56987c8729fddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:07 +0000
Subject: [PATCH 25/42] fix: minimum for exponential rules hung or was too
 small; repeated linear rule failed at its fixed point

---
 Code/Macro/Rule_Func.py | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/Code/Macro/Rule_Func.py b/Code/Macro/Rule_Func.py
index c7cca12..b26b2ab 100644
--- a/Code/Macro/Rule_Func.py
+++ b/Code/Macro/Rule_Func.py
@@ -2,7 +2,7 @@
 Func types used by Rules in Proof_System.
 """
 
-import math
+from fractions import Fraction
 
 from Algebraic_Expression import Expression, VariableToExpression
 from Exp_Int import ExpInt, exp_int
@@ -91,6 +91,9 @@ class Mult_Func(Func):
     # be very large!
     m_n = exp_int(base = self.coef, exponent = num_reps)
     numer = ((a*m + self.const) * m_n - self.const)
+    if isinstance(numer, int):
+      # `start` is a fixed point: m_n cancelled out.
+      return numer // m
     assert isinstance(numer, (ExpInt, Expression)), numer
     return numer / m
 
@@ -121,17 +124,17 @@ class Pow_Func(Func):
   def compute_min(self, min):
     # Increase min enough to guarantee that this is an increasing function.
     #   (a b^{u x + v} + c)/d > x
-    #   ux + v > log_b(dx-c) - log_b(a)
-    #   x > (log_b(dx-c) - log_b(a) - v) / u
-    av = self.const_exp + math.log(self.coef_base, self.base)
-    while True:
-      dxc = self.denom * min - self.const_base
-      if dxc <= 0:
-        return min
-      else:
-        x_bound = (math.log(dxc, self.base) - av) / self.coef_exp
-        if min > x_bound:
-          return min
-        else:
-          # TODO: Add tests that actually use this logic.
-          min = math.ceil(x_bound)
+    # The difference g(x) = a b^{u x + v} + c - d x is convex. So once it is
+    # positive and g(x+1) >= g(x) it will remain positive forever.
+    #   g(x+1) - g(x) = a b^{u x + v} (b^u - 1) - d
+    while not (self.pow_term_gt(min, 1, self.denom * min - self.const_base) and
+               self.pow_term_gt(min, self.base**self.coef_exp - 1, self.denom - 1)):
+      min += 1
+    return min
+
+  def pow_term_gt(self, x, mult, bound):
+    """Is: mult * a b^{u x + v} > bound"""
+    exp = self.coef_exp * x + self.const_exp
+    if bound < 0 or exp > bound.bit_length():
+      return True
+    return mult * self.coef_base * Fraction(self.base)**exp > bound
-- 
2.43.0


From 81123e80dade056748e99ebe0445fb42b1195689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:22 +0000
Subject: [PATCH 26/42] fix: TNF ordered symbols by first read instead of first
 write, so machines in tree normal form were changed

---
 Code/TNF.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/Code/TNF.py b/Code/TNF.py
index 777d178..f4efdfb 100755
--- a/Code/TNF.py
+++ b/Code/TNF.py
@@ -65,15 +65,18 @@ def to_TNF(tm : Turing_Machine.Simple_Machine, max_steps : int) -> Turing_Machin
     if sim.step_num > max_steps or sim.halted:
       return None
 
+    trans = tm.get_trans_object(sim.tape.read(), sim.state)
     sim.step()
 
-    if sim.state in unordered_states:
-      state_order.append(sim.state)
-      unordered_states.remove(sim.state)
-    cur_symb = sim.tape.read()
-    if cur_symb in unordered_symbols:
-      symbol_order.append(cur_symb)
-      unordered_symbols.remove(cur_symb)
+    # States and symbols are ordered by the first executed transition that goes
+    # to/writes them (halting transitions are standardized, so they don't count).
+    if trans.condition == Turing_Machine.RUNNING:
+      if trans.state_out in unordered_states:
+        state_order.append(trans.state_out)
+        unordered_states.remove(trans.state_out)
+      if trans.symbol_out in unordered_symbols:
+        symbol_order.append(trans.symbol_out)
+        unordered_symbols.remove(trans.symbol_out)
 
     if len(unordered_states) == 1:
       state_order.append(unordered_states.pop())
-- 
2.43.0


From c535630ac1e4a8d74f86291db9af977c5d2ebddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:22 +0000
Subject: [PATCH 27/42] fix: LNF did not find the smallest table (direction
 taken from the wrong cell, input kept with non-standard halts)

---
 Code/LNF.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/Code/LNF.py b/Code/LNF.py
index bc53e52..0cc07a1 100644
--- a/Code/LNF.py
+++ b/Code/LNF.py
@@ -10,17 +10,15 @@ from Macro import Turing_Machine
 import TNF
 
 
-def permute(old_tm, state_order, symbol_order):
-  # L < R
-  swap_dirs = (old_tm.trans_table[state_order[0]][0].dir_out == Turing_Machine.RIGHT)
+def permute(old_tm, state_order, symbol_order, swap_dirs):
   perm_tm = TNF.permute_table(old_tm, state_order, symbol_order, swap_dirs)
 
-  # Find new state number corresponding to start state (old 0) and symbol.
-  new_start_state = state_order.index(0)
+  # Find new state number corresponding to start state and symbol.
+  new_start_state = state_order.index(old_tm.init_state)
   assert new_start_state != -1, state_order
   perm_tm.init_state = Turing_Machine.Simple_Machine_State(new_start_state)
 
-  new_start_symb = symbol_order.index(0)
+  new_start_symb = symbol_order.index(old_tm.init_symbol)
   assert new_start_symb != -1, symbol_order
   perm_tm.init_symbol = new_start_symb
 
@@ -38,16 +36,17 @@ def iter_perms(xs):
 
 def brute_lnf(old_tm):
   """Calculate LNF using brute-force method."""
-  best_str = old_tm.ttable_str()
-  best_tm = old_tm
+  best_str = None
+  best_tm = None
   for state_order in iter_perms(list(range(old_tm.num_states))):
     for symbol_order in iter_perms(list(range(old_tm.num_symbols))):
-      perm_tm = permute(old_tm, state_order, symbol_order)
-      perm_str = perm_tm.ttable_str()
-      # print(f" Debug: {state_order} / {perm_str}")
-      if perm_str < best_str:
-        best_str = perm_str
-        best_tm = perm_tm
+      for swap_dirs in (False, True):
+        perm_tm = permute(old_tm, state_order, symbol_order, swap_dirs)
+        perm_str = perm_tm.ttable_str()
+        # print(f" Debug: {state_order} / {perm_str}")
+        if best_str is None or perm_str < best_str:
+          best_str = perm_str
+          best_tm = perm_tm
   return best_tm
 
 
-- 
2.43.0


From 3a417b7b2eb5784daba7ff222256c24ccca70f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:22 +0000
Subject: [PATCH 28/42] fix: lin_recur with a limit of one step missed halting
 and printed an uninitialised value

---
 cpp/src/lin_recur.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cpp/src/lin_recur.cpp b/cpp/src/lin_recur.cpp
index 54e2bcd..81dcf71 100644
--- a/cpp/src/lin_recur.cpp
+++ b/cpp/src/lin_recur.cpp
@@ -45,7 +45,11 @@ LinRecurResult LinRecurDetect(const TuringMachine& tm, const long max_steps) {
   // TODO: Consider Seek(1024) or something like this to avoid lots of early copies.
   sim.Step();
 
-  long init_step_num;
+  long init_step_num = sim.step_num();
+  if (sim.is_halted()) {
+    return {true, false, 0, 0, 0, sim.last_state(), sim.last_symbol(),
+            init_step_num, sim.step_num()};
+  }
   while (sim.step_num() < max_steps) {
     init_step_num = sim.step_num();
     const long steps_reset = 2 * init_step_num;
-- 
2.43.0


From 1147defadcb89d9c08d25b520061c9ef4fbcdb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:22 +0000
Subject: [PATCH 29/42] fix: C++ enumeration continued from a file allowed
 symbols/moves out of order; one-state classes crashed

---
 cpp/src/turing_machine.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/cpp/src/turing_machine.cpp b/cpp/src/turing_machine.cpp
index 443fe8a..c475dcd 100644
--- a/cpp/src/turing_machine.cpp
+++ b/cpp/src/turing_machine.cpp
@@ -10,7 +10,8 @@ namespace busy_beaver {
 // Empty TM
 TuringMachine::TuringMachine(int num_states, int num_symbols)
     : num_states_(num_states), num_symbols_(num_symbols),
-      max_next_state_(1), max_next_symbol_(1),
+      max_next_state_(std::min(1, num_states - 1)),
+      max_next_symbol_(std::min(1, num_symbols - 1)),
       next_move_left_ok_(false), num_halts_(num_states * num_symbols),
       hereditary_name_() {
   const LookupResult empty_trans = {1, +1, HaltState, true};
@@ -28,10 +29,14 @@ TuringMachine::TuringMachine(
   State max_state = 0;
   Symbol max_symbol = 0;
   int num_halts = 0;
+  bool all_undecided = true;
   for (const auto& row : transitions_) {
     for (const LookupResult& trans : row) {
-      max_state = std::max(max_state, trans.state);
-      max_symbol = std::max(max_symbol, trans.symbol);
+      if (!trans.undecided) {
+        max_state = std::max(max_state, trans.state);
+        max_symbol = std::max(max_symbol, trans.symbol);
+        all_undecided = false;
+      }
       if (trans.state < 0) {
         num_halts += 1;
       }
@@ -42,8 +47,8 @@ TuringMachine::TuringMachine(
   num_symbols_ = transitions_[0].size();
   max_next_state_ = std::min(max_state + 1, num_states_ - 1);
   max_next_symbol_ = std::min(max_symbol + 1, num_symbols_ - 1);
-  // Assume we aren't starting with completely blank TM.
-  next_move_left_ok_ = true;
+  // The first transition of a completely blank TM must go right.
+  next_move_left_ok_ = !all_undecided;
   num_halts_ = num_halts;
 }
 
-- 
2.43.0


From 1a391af4a9efa1bbccc9f7e086961be0767cbb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:22 +0000
Subject: [PATCH 30/42] fix: lr_enum without Boost used an uninitialised
 only_unknown

---
 cpp/src/lin_recur_enumerator.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cpp/src/lin_recur_enumerator.cpp b/cpp/src/lin_recur_enumerator.cpp
index 7cc0ffc..6a2b627 100644
--- a/cpp/src/lin_recur_enumerator.cpp
+++ b/cpp/src/lin_recur_enumerator.cpp
@@ -33,6 +33,7 @@ LinRecurEnum::LinRecurEnum(const bool allow_no_halt,
     out_unknown_stream_(&out_unknown_buf_),
 #endif
     max_steps_(max_steps),
+    only_unknown(only_unknown_in),
     proc_id_(proc_id)
 {
 #ifdef BOOST_FOUND
@@ -42,8 +43,6 @@ LinRecurEnum::LinRecurEnum(const bool allow_no_halt,
     file_suffix = ".gz";
   }
 
-  only_unknown = only_unknown_in;
-
   out_halt_stream_2_   .open(out_halt_filename    + file_suffix, std::ios::out | std::ios::binary);
   out_inf_stream_2_    .open(out_inf_filename     + file_suffix, std::ios::out | std::ios::binary);
   out_unknown_stream_2_.open(out_unknown_filename + file_suffix, std::ios::out | std::ios::binary);
-- 
2.43.0


From 1a5a6691e4b2a92a3037d5db740d3b970ca701e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:39 +0000
Subject: [PATCH 31/42] fix: a time limit firing while a verdict is written
 left a decided record without steps and halting cell

---
 Code/Halting_Lib.py | 42 ++++++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/Code/Halting_Lib.py b/Code/Halting_Lib.py
index e3fef50..6ae716d 100644
--- a/Code/Halting_Lib.py
+++ b/Code/Halting_Lib.py
@@ -137,15 +137,19 @@ def set_halting(tm_status  : io_pb2.BBStatus,
                 from_state  : Optional[int],
                 from_symbol : Optional[int]):
   """Specify that we know that this machine halts."""
-  tm_status.halt_status.is_decided = True
-  tm_status.halt_status.is_halting = True
-  set_big_int(tm_status.halt_status.halt_steps, halt_steps)
+  # Fill in a separate message first: A timeout (AlarmException) may be raised
+  # at any point and must not leave a decided, but incomplete status behind.
+  halt_status = io_pb2.HaltStatus()
+  halt_status.is_decided = True
+  halt_status.is_halting = True
+  set_big_int(halt_status.halt_steps, halt_steps)
   if halt_score is not None:
-    set_big_int(tm_status.halt_status.halt_score, halt_score)
+    set_big_int(halt_status.halt_score, halt_score)
   if from_state is not None:
-    tm_status.halt_status.from_state = from_state
+    halt_status.from_state = from_state
   if from_symbol is not None:
-    tm_status.halt_status.from_symbol = from_symbol
+    halt_status.from_symbol = from_symbol
+  tm_status.halt_status.CopyFrom(halt_status)
 
   # NOTE: We are treating Halting machines as Not Quasihalting.
   # Technically, Aaronson's definition calls Halting machines Quasihalting also.
@@ -154,14 +158,18 @@ def set_halting(tm_status  : io_pb2.BBStatus,
 def set_not_halting(tm_status  : io_pb2.BBStatus,
                     inf_reason : io_pb2.InfReason):
   """Specify that we know that this machine does not halt."""
-  tm_status.halt_status.is_decided = True
-  tm_status.halt_status.is_halting = False
-  tm_status.halt_status.inf_reason = inf_reason
+  halt_status = io_pb2.HaltStatus()
+  halt_status.is_decided = True
+  halt_status.is_halting = False
+  halt_status.inf_reason = inf_reason
+  tm_status.halt_status.CopyFrom(halt_status)
 
 def set_not_quasihalting(tm_status : io_pb2.BBStatus):
   """Specify that we know that this machine does not quasihalt."""
-  tm_status.quasihalt_status.is_decided = True
-  tm_status.quasihalt_status.is_quasihalting = False
+  quasihalt_status = io_pb2.QuasihaltStatus()
+  quasihalt_status.is_decided = True
+  quasihalt_status.is_quasihalting = False
+  tm_status.quasihalt_status.CopyFrom(quasihalt_status)
 
 
 def set_inf_recur(tm_status : io_pb2.BBStatus,
@@ -186,16 +194,18 @@ def set_inf_recur(tm_status : io_pb2.BBStatus,
         q_last_seen = states_last_seen[state]
 
   # Either way, we have made a conclusive decision.
-  tm_status.quasihalt_status.is_decided = True
+  quasihalt_status = io_pb2.QuasihaltStatus()
+  quasihalt_status.is_decided = True
   if q_state == None:
     # We can definitively say that this machine does NOT quasihalt.
     # Instead it enters Lin Recurrence cycling through all states forever.
-    tm_status.quasihalt_status.is_quasihalting = False
+    quasihalt_status.is_quasihalting = False
   else:
-    tm_status.quasihalt_status.is_quasihalting = True
+    quasihalt_status.is_quasihalting = True
     # Quasihalting time is technically the step after the last time a specific
     # state was last seen.
-    set_big_int(tm_status.quasihalt_status.quasihalt_steps, q_last_seen + 1)
+    set_big_int(quasihalt_status.quasihalt_steps, q_last_seen + 1)
     # Note: A TM may quasihalt at different times with respect to different
     # states. This is guaranteed to be the final quasihalt (max steps).
-    tm_status.quasihalt_status.quasihalt_state = q_state
+    quasihalt_status.quasihalt_state = q_state
+  tm_status.quasihalt_status.CopyFrom(quasihalt_status)
-- 
2.43.0


From 7580839d0bf9ad6d87f74c2e67db4468bdb99f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:17 +0000
Subject: [PATCH 32/42] fix: write every kind of record in the old text format

---
 Code/IO/OldText.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/Code/IO/OldText.py b/Code/IO/OldText.py
index 8865f50..a82c90c 100644
--- a/Code/IO/OldText.py
+++ b/Code/IO/OldText.py
@@ -13,6 +13,7 @@ import string
 import sys
 
 from Common import Exit_Condition
+from Exp_Int import ExpInt
 import Halting_Lib
 import IO
 from IO import TM_Record
@@ -30,6 +31,8 @@ inf_reason2str = {
   io_pb2.INF_REVERSE_ENGINEER: "Reverse_Engineer",
   io_pb2.INF_LIN_RECUR: "Lin_Recur",
   io_pb2.INF_CTL: "CTL",
+  io_pb2.INF_BACKTRACK: "Backtrack",
+  io_pb2.INF_CLOSED_GRAPH: "Closed_Graph",
 }
 str2inf_reason = {s: inf_reason for (inf_reason, s) in inf_reason2str.items()}
 
@@ -91,6 +94,9 @@ class Record(object):
       # everything as strings.
       #assert obj[0] not in string.digits
       return obj
+    elif obj is None or isinstance(obj, ExpInt):
+      # Unknown or too big to write out in full.
+      return Halting_Lib.big_int_approx_str(obj)
     else:
       assert isinstance(obj, (int, float)), \
           "Object %r is invalid type %s" % (obj, type(obj))
@@ -118,7 +124,7 @@ class ReaderWriter(object):
     io_record = Record()
     if self.log_number is not None:
       io_record.log_number = self.log_number
-    io_record.tm = TM_Record.unpack_tm(tm_record.proto.tm.ttable_packed)
+    io_record.tm = tm_record.tm()
 
     if tm_record.is_unknown_halting():
       io_record.category = Exit_Condition.UNKNOWN
@@ -141,6 +147,9 @@ class ReaderWriter(object):
       elif unk_reason == "over_steps_in_macro":
         reason = Exit_Condition.OVER_STEPS_IN_MACRO
         args = ()
+      elif unk_reason == "threw_exception":
+        reason = Exit_Condition.ERROR
+        args = ()
       else:
         raise Exception(unknown_info)
 
-- 
2.43.0


From c6f98935b512f568e663cbadb3b5a7adf678f9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:17 +0000
Subject: [PATCH 33/42] fix: Zero_Reflexive accepts an empty record file

---
 Code/Zero_Reflexive.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Code/Zero_Reflexive.py b/Code/Zero_Reflexive.py
index 92d41fe..ac644e9 100644
--- a/Code/Zero_Reflexive.py
+++ b/Code/Zero_Reflexive.py
@@ -41,7 +41,8 @@ def main():
         if num_total % 100_000 == 0:
           print(f" ... {num_zero_reflexive:_} / {num_total:_} = {num_zero_reflexive / num_total:.2%} ({time.time() - start_time:_.0f}s)")
 
-    print(f"# Zero Reflexive TMs: {num_zero_reflexive:_} / {num_total:_} = {num_zero_reflexive / num_total:.2%} ({time.time() - start_time:_.0f}s)")
+    fraction = num_zero_reflexive / num_total if num_total else 0.0
+    print(f"# Zero Reflexive TMs: {num_zero_reflexive:_} / {num_total:_} = {fraction:.2%} ({time.time() - start_time:_.0f}s)")
 
 if __name__ == "__main__":
   main()
-- 
2.43.0


From a191590de3cd4e969a90e37f7d6421388dc24802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:17 +0000
Subject: [PATCH 34/42] fix: IO_Sample reports the number of records it scanned

---
 Code/IO_Sample.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Code/IO_Sample.py b/Code/IO_Sample.py
index c4e725d..fe9e4f9 100755
--- a/Code/IO_Sample.py
+++ b/Code/IO_Sample.py
@@ -37,7 +37,8 @@ def sample(in_filenames, out_filename, sample_size):
           num_records += 1
     except IO.Proto.IO_Error:
       print(f"ERROR: {in_filename} has unexpected EOF. Moving on.")
-  print(f"Scanned {num_records:_} total records / {num_read:_} records read")
+  # num_records is the number (from 1) of the record that would come next.
+  print(f"Scanned {num_records - 1:_} total records / {num_read:_} records read")
 
   random.shuffle(sample)
   with IO.Proto.Writer(out_filename) as writer:
-- 
2.43.0


From 58f229faa2a78db72b6c5285ce204adf9aedbed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:17 +0000
Subject: [PATCH 35/42] fix: TM_Analyze prints statistics of records that were
 never simulated

---
 Code/TM_Analyze.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Code/TM_Analyze.py b/Code/TM_Analyze.py
index 389860f..e639834 100755
--- a/Code/TM_Analyze.py
+++ b/Code/TM_Analyze.py
@@ -215,9 +215,11 @@ class TMStats:
 
     print("Simulator:")
     print(f"  - num_loops         : Mean {self.sim_num_loops.mean():9_.0f}  Max {self.sim_num_loops.max_value:9_d}")
+    # min_value is inf if no record has been simulated.
+    log10_min_steps = self.sim_log10_num_steps.min_value if self.sim_log10_num_steps.count else 0
     # self.print_hist(self.sim_num_loops.log_hist)
     # print()
-    print(f"  - log10(num_steps)  : Mean {self.sim_log10_num_steps.mean():9_.0f}  Max {self.sim_log10_num_steps.max_value:9_d}  Min {self.sim_log10_num_steps.min_value:9_d}")
+    print(f"  - log10(num_steps)  : Mean {self.sim_log10_num_steps.mean():9_.0f}  Max {self.sim_log10_num_steps.max_value:9_d}  Min {log10_min_steps:9_d}")
     print(f"  - num_rules_proven  : Mean {self.sim_num_rules_proven.mean():9_.0f}  Max {self.sim_num_rules_proven.max_value:9_d}  (Set in {self.sim_num_rules_proven.count / self.count:7.2%})")
     print(f"  - num_linear_rules  : Mean {self.sim_num_linear_rules_proven.mean():9_.0f}  Max {self.sim_num_linear_rules_proven.max_value:9_d}  (Set in {self.sim_num_linear_rules_proven.count / self.count:7.2%})")
     print(f"  - num_exponential_rules  : Mean {self.sim_num_exponential_rules_proven.mean():9_.0f}  Max {self.sim_num_exponential_rules_proven.max_value:9_d}  (Set in {self.sim_num_exponential_rules_proven.count / self.count:7.2%})")
-- 
2.43.0


From 972e8231087521efe6c22b4f101bad3e45da7e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:17 +0000
Subject: [PATCH 36/42] fix: Find_Record finds machines of more than 7 states
 or symbols

---
 Code/Find_Record.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Code/Find_Record.py b/Code/Find_Record.py
index 08dacdc..eb08691 100755
--- a/Code/Find_Record.py
+++ b/Code/Find_Record.py
@@ -5,15 +5,19 @@ from pathlib import Path
 import time
 
 import IO
-from IO.TM_Record import pack_tm
+from IO.TM_Record import write_tm
+
+import io_pb2
 
 
 def find(tm_std, in_filename):
   tm = IO.parse_tm(tm_std)
-  ttable_bytes = pack_tm(tm)
+  tm_proto = io_pb2.TuringMachine()
+  write_tm(tm, tm_proto)
   with IO.Reader(in_filename) as reader:
     for record_num, tm_record in enumerate(reader):
-      if tm_record.proto.tm.ttable_packed == ttable_bytes:
+      if (tm_record.proto.tm.ttable_packed == tm_proto.ttable_packed and
+          tm_record.proto.tm.ttable_list == tm_proto.ttable_list):
         print(record_num)
         print(tm_record.proto)
         print("ttable:", tm_record.ttable_str())
-- 
2.43.0


From 8d3a95ca39fb6a90151f917a4acae88ef1472c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:19 +0000
Subject: [PATCH 37/42] fix: count parser read n-1 or n0 as n

---
 rust/src/count_expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/src/count_expr.rs b/rust/src/count_expr.rs
index 125c2d0..bf2d1fb 100644
--- a/rust/src/count_expr.rs
+++ b/rust/src/count_expr.rs
@@ -751,7 +751,7 @@ impl FromStr for VarSum {
         let parts = s.split('+').collect::<Vec<&str>>();
         for part in parts {
             // Parse things like "12", "x", "2n", "4a" using regular expressions:
-            let re = Regex::new(r"^(?P<coef>\d+)?(?P<var>[a-z])|(?P<const>\d+)$").unwrap();
+            let re = Regex::new(r"^(?:(?P<coef>\d+)?(?P<var>[a-z])|(?P<const>\d+))$").unwrap();
             let caps = re
                 .captures(part)
                 .ok_or(ParseError::CountRegexFailed(part.to_string()))?;
-- 
2.43.0


From a562a43d0621f6e7710306214e207058bddcd26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:39 +0000
Subject: [PATCH 38/42] fix: substitution captured bound variables, so the rule
 validator could accept false rules

---
 rust/src/count_expr.rs | 80 +++++++++++++++++++++++++++++++++---------
 1 file changed, 63 insertions(+), 17 deletions(-)

diff --git a/rust/src/count_expr.rs b/rust/src/count_expr.rs
index bf2d1fb..06bdf2c 100644
--- a/rust/src/count_expr.rs
+++ b/rust/src/count_expr.rs
@@ -171,11 +171,24 @@ impl VarSum {
             };
         }
         // First we add bound variables for all RecursiveExpr substitutions to `new_var_sum`.
-        for (x, count, _) in rec_subst.iter() {
-            // If `x` is free in `expr`, we cannot do the substitution below as simply.
-            // TODO: Replace `x` with a new (unused) variable in this case.
-            assert!(!new_var_sum.free_vars().contains(x));
-            new_var_sum += VarSum::from(*x) * *count;
+        let sum_vars = new_var_sum.free_vars();
+        let mut used_vars = sum_vars.clone();
+        for (x, _, rec_expr) in rec_subst.iter() {
+            used_vars.insert(*x);
+            used_vars.extend(rec_expr.free_vars());
+        }
+        for i in 0..rec_subst.len() {
+            let (x, count) = (rec_subst[i].0, rec_subst[i].1);
+            // If `x` is used elsewhere in the scope that will bind it, bind a new (unused) variable instead.
+            let is_used = sum_vars.contains(&x)
+                || rec_subst[..i]
+                    .iter()
+                    .any(|(_, _, rec_expr)| rec_expr.free_vars().contains(&x));
+            if is_used {
+                rec_subst[i].0 = Variable::new_unused(&used_vars);
+                used_vars.insert(rec_subst[i].0);
+            }
+            new_var_sum += VarSum::from(rec_subst[i].0) * count;
         }
         // Then, for each RecursiveExpr substitution, we apply the substitution via function application.
         let mut expr = CountExpr::VarSum(new_var_sum);
@@ -267,6 +280,16 @@ impl Function {
         self.expr == CountExpr::from(self.bound_var)
     }
 
+    // Rename the bound variable (alpha conversion). `new_var` must not occur in `self.expr`.
+    fn rename(&self, new_var: Variable) -> Result<Function, VarSubstError> {
+        Ok(Function {
+            bound_var: new_var,
+            expr: self
+                .expr
+                .subst(&VarSubst::single(self.bound_var, new_var.into()))?,
+        })
+    }
+
     pub fn apply(&self, val: CountExpr) -> CountExpr {
         // TODO: Deal with unwrap ...
         self.expr
@@ -277,7 +300,14 @@ impl Function {
     // Compose two functions (applying the first, first).
     // f.compose(g): x -> g(f(x))
     pub fn compose(&self, g: &Function) -> Function {
-        let f = self.clone();
+        let mut f = self.clone();
+        let mut used_vars = g.expr.free_vars();
+        if used_vars.contains(&f.bound_var) {
+            // Do not capture variables of g.
+            used_vars.extend(f.expr.free_vars());
+            // TODO: unwrap ...
+            f = f.rename(Variable::new_unused(&used_vars)).unwrap();
+        }
         Function {
             // x
             bound_var: f.bound_var,
@@ -295,12 +325,15 @@ impl Function {
 
     fn known_equal(&self, other: &Function) -> bool {
         // Support alpha equivalence (two functions being equal up to renaming of bound variables).
+        // Use a variable that is free in neither of them for both.
+        let mut used_vars = self.expr.free_vars();
+        used_vars.extend(other.expr.free_vars());
+        used_vars.extend([self.bound_var, other.bound_var]);
+        let x = Variable::new_unused(&used_vars);
         // TODO: unwrap ...
-        let other_renamed = other
-            .expr
-            .subst(&VarSubst::single(other.bound_var, self.bound_var.into()))
-            .unwrap();
-        self.expr.known_equal(&other_renamed)
+        let self_renamed = self.rename(x).unwrap();
+        let other_renamed = other.rename(x).unwrap();
+        self_renamed.expr.known_equal(&other_renamed.expr)
     }
 }
 
@@ -313,13 +346,26 @@ impl RecursiveExpr {
     }
 
     pub fn subst(&self, var_subst: &VarSubst) -> Result<RecursiveExpr, VarSubstError> {
+        // Ignore the bound variable in the substitution!
+        let func_subst = var_subst.without(&self.func.bound_var);
+        // Rename the bound variable if it would capture a variable of a substituted value.
+        let func_vars = self.func.expr.free_vars();
+        let mut value_vars = HashSet::new();
+        for (x, value) in func_subst.0.iter() {
+            if func_vars.contains(x) {
+                value_vars.extend(value.free_vars());
+            }
+        }
+        let func = if value_vars.contains(&self.func.bound_var) {
+            value_vars.extend(func_vars);
+            value_vars.extend(func_subst.0.keys());
+            self.func.rename(Variable::new_unused(&value_vars))?
+        } else {
+            (*self.func).clone()
+        };
         let new_func = Function {
-            bound_var: self.func.bound_var,
-            expr: self
-                .func
-                .expr
-                // Ignore the bound variable in the substitution!
-                .subst(&var_subst.without(&self.func.bound_var))?,
+            bound_var: func.bound_var,
+            expr: func.expr.subst(&func_subst)?,
         };
         Ok(RecursiveExpr {
             func: Box::new(new_func),
-- 
2.43.0


From 7745c735e715190b8e98902234225aaf16916728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:52 +0000
Subject: [PATCH 39/42] fix: skipping a torn last record in a record file is an
 error, not a record

---
 Code/IO/Proto.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Code/IO/Proto.py b/Code/IO/Proto.py
index 9f0317a..86c3b6b 100644
--- a/Code/IO/Proto.py
+++ b/Code/IO/Proto.py
@@ -107,8 +107,13 @@ class Reader:
     """Skip ahead 1 record. Return False if no records left in file."""
     pb_len = self._read_message_len()
     if pb_len != None:
-      # Skip ahead pb_len bytes.
-      pb_bytes = self.infile.seek(pb_len, 1)
+      # Skip ahead pb_len bytes. seek() happily moves past the end of the file,
+      # so read the last byte to make sure that the whole record is there.
+      if pb_len > 0:
+        self.infile.seek(pb_len - 1, 1)
+        if not self.infile.read(1):
+          raise IO_Error("Unexpected EOF while skipping data block "
+                         f"(expected {pb_len} bytes)")
       return True
     return False
 
-- 
2.43.0


From d20bce0cec068194bd6cca77fcb32aed1dc75ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:47 +0000
Subject: [PATCH 40/42] fix: ngram_entropy reads the tape window with
 read_pos()

DirectTape.read() takes no position, so the program failed on every machine.
---
 Code/ngram_entropy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/ngram_entropy.py b/Code/ngram_entropy.py
index c84f970..99bbba3 100644
--- a/Code/ngram_entropy.py
+++ b/Code/ngram_entropy.py
@@ -21,7 +21,7 @@ def extract_window(sim, window_size : int):
   # window is centered on TM head.
   start = sim.tape.position - (window_size // 2)
   end = start + window_size
-  tape_window = tuple(sim.tape.read(pos) for pos in range(start, end))
+  tape_window = tuple(sim.tape.read_pos(pos) for pos in range(start, end))
   return (sim.state, tape_window)
 
 def entropy(counts) -> float:
-- 
2.43.0


From 4f1de734acdd9da70e32b95027a8d197c39160c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:57 +0000
Subject: [PATCH 41/42] fix: venn_diff accepts lines that occur several times
 in the right file

A second copy of a common line raised KeyError.
---
 Tools/venn_diff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Tools/venn_diff.py b/Tools/venn_diff.py
index f2e32a7..2994360 100755
--- a/Tools/venn_diff.py
+++ b/Tools/venn_diff.py
@@ -20,7 +20,7 @@ def venn_diff(in_left, in_right, out_inter, out_lonly, out_ronly):
   for line in in_right:
     if line in left_all:
       # Line is in both left and right
-      left_only.remove(line)
+      left_only.discard(line)
       out_inter.write(line)
 
     else:
-- 
2.43.0


From f25812a0e7a2655e7533151a6ea2fb3281f2f30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:37 +0000
Subject: [PATCH 42/42] fix: a copied DirectSimulator keeps the halting score
 and cell

---
 Code/Direct_Simulator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Code/Direct_Simulator.py b/Code/Direct_Simulator.py
index d86aa08..5d457b0 100644
--- a/Code/Direct_Simulator.py
+++ b/Code/Direct_Simulator.py
@@ -114,6 +114,10 @@ class DirectSimulator:
     new_sim.halted = self.halted
     new_sim.tape = self.tape.copy()
     new_sim.step_num = self.step_num
+    if self.halted:
+      new_sim.halt_score = self.halt_score
+      new_sim.halt_from_state = self.halt_from_state
+      new_sim.halt_from_symbol = self.halt_from_symbol
     return new_sim
 
   def step(self):
-- 
2.43.0

