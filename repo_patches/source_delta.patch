From fdbaaea60cb69c85be50612ea26bfdab9d091cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:19 +0000
Subject: [PATCH 01/33] fix: take the clock event of a BundleList's bundles
 into the parent bundle

---
 toffee/bundle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index e76332b..dc6cd63 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -1397,6 +1397,8 @@ class Bundle(MObject):
                     specific_signal,
                     all_signals_rule,
                 )
+                if bundle.__clock_event is not None:
+                    self.__clock_event = bundle.__clock_event
 
         Bundle.__revert_signal_name(matching_signals, all_signals)
         return matching_signals + remain_signals
-- 
2.43.0


From 92fe40f1a2b7e7dec6310728a96f45cb98eba7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:36 +0000
Subject: [PATCH 02/33] fix: settle tasks whose wait was cancelled before the
 next clock step

---
 toffee/asynchronous.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/toffee/asynchronous.py b/toffee/asynchronous.py
index 79519b4..e783435 100644
--- a/toffee/asynchronous.py
+++ b/toffee/asynchronous.py
@@ -54,7 +54,8 @@ def task_run():
 
 def __has_unwait_task():
     """
-    Detects whether a task exists, is not waiting, or is waiting for an event that has already been triggered.
+    Detects whether a task exists, is not waiting, or is waiting for an event that has already been triggered or whose
+    wait has been cancelled.
     """
 
     for task in asyncio.all_tasks():
@@ -62,7 +63,7 @@ def __has_unwait_task():
         if task.get_name() == "__clock_loop":
             continue
 
-        if task._fut_waiter is None or task._fut_waiter._state == "FINISHED":
+        if task._fut_waiter is None or task._fut_waiter.done():
             return True
 
     return False
-- 
2.43.0


From 5dc7eee16c3f6f74c28a6c80650663b802cf1e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:46 +0000
Subject: [PATCH 03/33] fix: settle tasks woken by model hooks before the next
 clock step

---
 toffee/asynchronous.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toffee/asynchronous.py b/toffee/asynchronous.py
index e783435..2daeab1 100644
--- a/toffee/asynchronous.py
+++ b/toffee/asynchronous.py
@@ -104,7 +104,7 @@ async def cancel_all_tasks():
 async def execute_all_coros():
     while True:
         await __other_tasks_done()
-        if not (await __execute_callback()):
+        if not (await __execute_callback()) and not __has_unwait_task():
             break
 
     if asyncio.get_event_loop().test_done:
-- 
2.43.0


From 98babed65af98c9c761ddbbad9d48b41d89b8cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:56 +0000
Subject: [PATCH 04/33] fix: report an exception raised in a monitor instead of
 ending the monitor silently

---
 toffee/_base_agent.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/toffee/_base_agent.py b/toffee/_base_agent.py
index b48b51e..ca5a3c4 100644
--- a/toffee/_base_agent.py
+++ b/toffee/_base_agent.py
@@ -3,6 +3,7 @@ __all__ = [
     "Monitor",
 ]
 
+import asyncio
 import inspect
 from .asynchronous import create_task
 from .asynchronous import Event
@@ -236,6 +237,18 @@ class Monitor(BaseAgent):
                 )
 
     async def __monitor_forever(self):
+        try:
+            await self.__monitor_loop()
+        except Exception as e:
+            # The monitor keeps its task referenced and nobody awaits it, so the failure has to be reported here
+            asyncio.get_running_loop().call_exception_handler(
+                {
+                    "message": f"Exception in monitor {self.name}",
+                    "exception": e,
+                }
+            )
+
+    async def __monitor_loop(self):
         while True:
             await self.agent.monitor_step()
 
-- 
2.43.0


From 04aa6c9c856983783f2955b8c82d3273ce2a6acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:34 +0000
Subject: [PATCH 05/33] fix: keep pending hook calls per event loop so a failed
 run does not leak them into the next

---
 toffee/executor.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/toffee/executor.py b/toffee/executor.py
index 18db891..c1ad729 100644
--- a/toffee/executor.py
+++ b/toffee/executor.py
@@ -1,5 +1,7 @@
 __all__ = ["Executor"]
 
+import asyncio
+
 from .asynchronous import add_callback
 from .asynchronous import create_task
 from .asynchronous import Event
@@ -11,7 +13,16 @@ from ._base import MObject
 Priority Task Execution
 """
 
-__priority_tasks = []
+
+def __get_priority_tasks():
+    """
+    Get the priority task list of the running event loop.
+    """
+
+    loop = asyncio.get_event_loop()
+    if not hasattr(loop, "priority_tasks"):
+        loop.priority_tasks = []
+    return loop.priority_tasks
 
 
 def add_priority_task(coro, priority, done_event=None):
@@ -19,7 +30,7 @@ def add_priority_task(coro, priority, done_event=None):
     Add a priority task to the priority task list.
     """
 
-    __priority_tasks.append((coro, priority, done_event))
+    __get_priority_tasks().append((coro, priority, done_event))
 
 
 async def __execute_priority_tasks():
@@ -28,13 +39,14 @@ async def __execute_priority_tasks():
     """
 
     set_event = False
-    for coro, _, done_event in sorted(__priority_tasks, key=lambda x: x[1]):
+    priority_tasks = __get_priority_tasks()
+    for coro, _, done_event in sorted(priority_tasks, key=lambda x: x[1]):
         await coro
         if done_event is not None:
             set_event = True
             done_event.set()
 
-    __priority_tasks.clear()
+    priority_tasks.clear()
     return set_event
 
 
-- 
2.43.0


From 7c2e0779e2302fd04a01d0a26323500298eb8ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:24 +0000
Subject: [PATCH 06/33] fix: make detaching, re-attaching and rejecting a model
 work

---
 toffee/env.py   | 11 ++++++++---
 toffee/model.py |  8 ++++----
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/toffee/env.py b/toffee/env.py
index 4b5f5ff..9efd660 100644
--- a/toffee/env.py
+++ b/toffee/env.py
@@ -50,8 +50,13 @@ class Env(MObject):
             model.attached_env.unattach(model)
 
         self.__inject_all(model)
-        self.__ensure_model_match(model)
+        try:
+            self.__ensure_model_match(model)
+        except ValueError:
+            self.__uninject_all(model)
+            raise
         self.attached_models.append(model)
+        model.attached_env = self
 
         return self
 
@@ -66,9 +71,9 @@ class Env(MObject):
             The env itself.
         """
 
-        if model in self.attached_model:
+        if model in self.attached_models:
             self.__uninject_all(model)
-            self.attached_model.remove(model)
+            self.attached_models.remove(model)
             model.clear_matched()
             model.attached_env = None
         else:
diff --git a/toffee/model.py b/toffee/model.py
index 3d7b9ee..ec61b72 100644
--- a/toffee/model.py
+++ b/toffee/model.py
@@ -321,7 +321,7 @@ class Model(Component):
 
     def __init__(self):
         super().__init__()
-        self.attached_agent = None
+        self.attached_env = None
 
         self.all_agent_ports = []
         self.all_driver_ports = []
@@ -384,7 +384,7 @@ class Model(Component):
 
         for agent_hook in self.all_agent_hooks:
             agent_hook.__matched__[0] = False
-            agent_hook.__methods_matched__ = [False] * len(agent_hook.__methods__)
+            agent_hook.__methods_matched__[:] = [False] * len(agent_hook.__methods__)
 
         for agent_port in self.all_agent_ports:
             agent_port.matched = False
@@ -392,10 +392,10 @@ class Model(Component):
 
     def is_attached(self):
         """
-        Check if the model is attached to an agent.
+        Check if the model is attached to an env.
         """
 
-        return self.attached_agent is not None
+        return self.attached_env is not None
 
     def ensure_all_matched(self):
         """
-- 
2.43.0


From 82323ed531a31aebed2bbe1d425a7cd79a2574d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:24 +0000
Subject: [PATCH 07/33] fix: forget matches of earlier attachments when
 attaching a model

---
 toffee/env.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/toffee/env.py b/toffee/env.py
index 9efd660..9cb81dd 100644
--- a/toffee/env.py
+++ b/toffee/env.py
@@ -49,6 +49,7 @@ class Env(MObject):
             )
             model.attached_env.unattach(model)
 
+        model.clear_matched()
         self.__inject_all(model)
         try:
             self.__ensure_model_match(model)
-- 
2.43.0


From efa2e511b58d53de08e91cd1598f02d515df2a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:01 +0000
Subject: [PATCH 08/33] fix: leave an exit="any" executor block when a group
 fails

---
 toffee/executor.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/toffee/executor.py b/toffee/executor.py
index c1ad729..970d24b 100644
--- a/toffee/executor.py
+++ b/toffee/executor.py
@@ -152,13 +152,19 @@ class Executor(MObject):
         for tasks in self.__coros.items():
             self.__uncompleted.append(
                 create_task(
-                    self.__sequential_execution_all(
-                        *tasks[1], complete_event=self.__exit_any_event
+                    self.__set_event_when_ended(
+                        self.__sequential_execution_all(*tasks[1]),
+                        self.__exit_any_event,
                     )
                 )
             )
         await self.__exit_any_event.wait()
 
+        # A group that ended with an exception reports it here
+        for task in self.__uncompleted:
+            if task.done():
+                task.result()
+
     async def wait_all(self):
         """
         Wait for all the coroutines to complete. This function should be called after execute.
@@ -227,13 +233,23 @@ class Executor(MObject):
         self.__coros[sche_group].append((coro, sche_order, priority))
 
     @staticmethod
-    async def __sequential_execution_all(*tasks, complete_event=None):
+    async def __set_event_when_ended(coro, event):
+        """
+        Await the coroutine and set the event when it ends, even if it ends with an exception.
+        """
+
+        try:
+            return await coro
+        finally:
+            event.set()
+
+    @staticmethod
+    async def __sequential_execution_all(*tasks):
         """
         Sequentially execute all tasks.
 
         Args:
             tasks: The tasks to be executed.
-            complete_event: The event to set when all tasks are completed.
         """
 
         results = []
@@ -252,9 +268,6 @@ class Executor(MObject):
 
             results.append(await coro)
 
-        if complete_event is not None and not complete_event.is_set():
-            complete_event.set()
-
         return results
 
     @staticmethod
-- 
2.43.0


From 5da2850b23d7c3e844d9cc1c1bcc9cf83146b4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:13 +0000
Subject: [PATCH 09/33] fix: give drivers and monitors of an agent outside an
 env a path

---
 toffee/_base_agent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/toffee/_base_agent.py b/toffee/_base_agent.py
index ca5a3c4..89a5948 100644
--- a/toffee/_base_agent.py
+++ b/toffee/_base_agent.py
@@ -19,7 +19,7 @@ class BaseAgent:
         self.func = func
         self.name = func.__name__
         self.agent_name = ""
-        self.path_name = ""
+        self.path = self.name
         self.compare_func = compare_func
         self.model_infos = {}
 
-- 
2.43.0


From 3d4dbabd10bb1d0c2884a92d303180ee6e9c146e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:35 +0000
Subject: [PATCH 10/33] fix: sample delayed signals once per cycle, after the
 cycle has settled

---
 toffee/asynchronous.py | 15 +++++++++++++++
 toffee/delay.py        |  7 +++----
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/toffee/asynchronous.py b/toffee/asynchronous.py
index 2daeab1..8e8eb5d 100644
--- a/toffee/asynchronous.py
+++ b/toffee/asynchronous.py
@@ -33,6 +33,18 @@ def add_callback(coro, *args, **kwargs):
     callback_list.append((coro, args, kwargs))
 
 
+# Functions that are called exactly once in each cycle, after all tasks and callbacks of the cycle have settled.
+settled_callback_list = []
+
+
+def add_settled_callback(func):
+    """
+    Add a function to be called once per cycle, when nothing is left to execute in the cycle.
+    """
+
+    settled_callback_list.append(func)
+
+
 async def __execute_callback():
     """
     Execute the callback function. The Callback will be executed between the next clock time after other_task_done.
@@ -107,6 +119,9 @@ async def execute_all_coros():
         if not (await __execute_callback()) and not __has_unwait_task():
             break
 
+    for func in settled_callback_list:
+        func()
+
     if asyncio.get_event_loop().test_done:
         await cancel_all_tasks()
         await asyncio.sleep(0)
diff --git a/toffee/delay.py b/toffee/delay.py
index efdf27d..558dc69 100644
--- a/toffee/delay.py
+++ b/toffee/delay.py
@@ -1,17 +1,16 @@
 __all__ = ["Delayer"]
 
 import asyncio
-from .asynchronous import add_callback
+from .asynchronous import add_settled_callback
 from ._base import MObject
 
 
-async def __process_delayer():
+def __process_delayer():
     for delayer in asyncio.get_event_loop().delayer_list:
         delayer.sample()
-    return False
 
 
-add_callback(__process_delayer)
+add_settled_callback(__process_delayer)
 
 
 class Delayer(MObject):
-- 
2.43.0


From 25e5e0510e0fc4fad8e372f72b22f81e7631093b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:36 +0000
Subject: [PATCH 11/33] fix: keep an executor call's priority and order to that
 call

---
 toffee/_base_agent.py | 54 ++++++++++++++++++++++++++++---------------
 1 file changed, 35 insertions(+), 19 deletions(-)

diff --git a/toffee/_base_agent.py b/toffee/_base_agent.py
index 89a5948..e9a141b 100644
--- a/toffee/_base_agent.py
+++ b/toffee/_base_agent.py
@@ -66,7 +66,7 @@ class Driver(BaseAgent):
             await model_info["driver_port"].put(args)
 
     def __drive_single_driver_hook(
-        self, driver_hook, model_results, arg_list, kwarg_list
+        self, driver_hook, model_results, arg_list, kwarg_list, priority
     ):
         if inspect.iscoroutinefunction(driver_hook):
             assert False, "driver_hook should not be a coroutine function"
@@ -75,15 +75,14 @@ class Driver(BaseAgent):
             model_results.append((driver_hook, driver_hook(*arg_list, **kwarg_list)))
 
         event = Event()
-        priority = (
-            self.priority if self.priority is not None else driver_hook.__priority__
-        )
+        if priority is None:
+            priority = driver_hook.__priority__
         add_priority_task(driver_hook_wrapper(), priority, event)
 
         return event
 
     def __drive_single_agent_hook(
-        self, agent_hook, model_results, arg_list, kwarg_list
+        self, agent_hook, model_results, arg_list, kwarg_list, priority
     ):
         if inspect.iscoroutinefunction(agent_hook):
             assert False, "agent_hook should not be a coroutine function"
@@ -97,9 +96,8 @@ class Driver(BaseAgent):
             )
 
         event = Event()
-        priority = (
-            self.priority if self.priority is not None else agent_hook.__priority__
-        )
+        if priority is None:
+            priority = agent_hook.__priority__
         add_priority_task(agent_hook_wrapper(), priority, event)
 
         return event
@@ -116,6 +114,11 @@ class Driver(BaseAgent):
             The result of the DUT if imme_ret is False, otherwise None.
         """
 
+        # The executor's settings apply to this call only
+
+        priority, sche_order = self.priority, self.sche_order
+        self.priority = self.sche_order = None
+
         # Execute model_first driver hooks and agent hooks
 
         model_results = []
@@ -131,11 +134,15 @@ class Driver(BaseAgent):
                 if driver_hook := model_info["driver_hook"]:
                     if (
                         driver_hook.__sche_order__ == "model_first"
-                        and self.sche_order != "dut_first"
-                    ) or self.sche_order == "model_first":
+                        and sche_order != "dut_first"
+                    ) or sche_order == "model_first":
                         model_first_events.append(
                             self.__drive_single_driver_hook(
-                                driver_hook, model_results, arg_list, kwarg_list
+                                driver_hook,
+                                model_results,
+                                arg_list,
+                                kwarg_list,
+                                priority,
                             ).wait()
                         )
                     else:
@@ -144,11 +151,15 @@ class Driver(BaseAgent):
                 for agent_hook in model_info["agent_hook"]:
                     if (
                         agent_hook.__sche_order__ == "model_first"
-                        and self.sche_order != "dut_first"
-                    ) or self.sche_order == "model_first":
+                        and sche_order != "dut_first"
+                    ) or sche_order == "model_first":
                         model_first_events.append(
                             self.__drive_single_agent_hook(
-                                agent_hook, model_results, arg_list, kwarg_list
+                                agent_hook,
+                                model_results,
+                                arg_list,
+                                kwarg_list,
+                                priority,
                             ).wait()
                         )
                     else:
@@ -166,13 +177,21 @@ class Driver(BaseAgent):
             for driver_hook in dut_first_driver_hooks:
                 dut_first_events.append(
                     self.__drive_single_driver_hook(
-                        driver_hook, model_results, arg_list, kwarg_list
+                        driver_hook,
+                        model_results,
+                        arg_list,
+                        kwarg_list,
+                        priority,
                     ).wait()
                 )
             for agent_hook in dut_first_agent_hooks:
                 dut_first_events.append(
                     self.__drive_single_agent_hook(
-                        agent_hook, model_results, arg_list, kwarg_list
+                        agent_hook,
+                        model_results,
+                        arg_list,
+                        kwarg_list,
+                        priority,
                     ).wait()
                 )
             await gather(*dut_first_events)
@@ -187,9 +206,6 @@ class Driver(BaseAgent):
                         match_detail=True,
                     )
 
-            self.priority = None
-            self.sche_order = None
-
         create_task(background_exec())
 
         return dut_result
-- 
2.43.0


From 713fb085ff4e6028cc074c5e346373b01264cc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:37 +0000
Subject: [PATCH 12/33] fix: let the executor run a coroutine with a local
 named agent that is no Agent

---
 toffee/executor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/toffee/executor.py b/toffee/executor.py
index 970d24b..c335976 100644
--- a/toffee/executor.py
+++ b/toffee/executor.py
@@ -282,5 +282,7 @@ class Executor(MObject):
         agent = coro.cr_frame.f_locals.get("agent", None)
         driver_name = coro.__name__
 
-        if agent is not None:
-            return agent.drivers.get(driver_name, None)
+        # A coroutine that is not a driver may have any object named agent
+        drivers = getattr(agent, "drivers", None)
+        if isinstance(drivers, dict):
+            return drivers.get(driver_name, None)
-- 
2.43.0


From b62efc34c70db6c5b7e6eb05a00d70792d66f0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:08 +0000
Subject: [PATCH 13/33] fix: attach models by the agents their ports and hooks
 name

---
 toffee/env.py   | 18 +++++++++++-------
 toffee/model.py |  6 +++++-
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/toffee/env.py b/toffee/env.py
index 9cb81dd..f12cbec 100644
--- a/toffee/env.py
+++ b/toffee/env.py
@@ -260,14 +260,17 @@ class Env(MObject):
 
         model.ensure_all_matched()
 
+        agent_names = list(self.all_agent_names())
+
         for agent_hook in model.all_agent_hooks:
             for agent in agent_hook.__agents__:
-                if not hasattr(self, agent):
+                if agent not in agent_names:
                     raise ValueError(
                         f"Agent hook {agent_hook.__name__} is not matched to agent {agent}"
                     )
-            if not agent_hook.__agent_name__ == "" and not hasattr(
-                self, agent_hook.__agent_name__
+            if (
+                not agent_hook.__agent_name__ == ""
+                and agent_hook.__agent_name__ not in agent_names
             ):
                 raise ValueError(
                     f"Agent hook {agent_hook.__name__} is not matched to agent {agent_hook.__agent_name__}"
@@ -275,13 +278,14 @@ class Env(MObject):
 
         for agent_port in model.all_agent_ports:
             for agent in agent_port.agents:
-                if not hasattr(self, agent):
+                if agent not in agent_names:
                     raise ValueError(
-                        f"Agent port {agent_port.__name__} is not matched to agent {agent}"
+                        f"Agent port {agent_port.name} is not matched to agent {agent}"
                     )
-            if not agent_port.name == "" and not hasattr(self, agent_port.name):
+            path = agent_port.get_path()
+            if not path == "" and path not in agent_names:
                 raise ValueError(
-                    f"Agent port {agent_port.name} is not matched to agent {agent_port.name}"
+                    f"Agent port {agent_port.name} is not matched to agent {path}"
                 )
 
     def __get_driver(self, agent_name, driver_name):
diff --git a/toffee/model.py b/toffee/model.py
index ec61b72..db311fa 100644
--- a/toffee/model.py
+++ b/toffee/model.py
@@ -263,7 +263,11 @@ class AgentPort(Port):
         self.methods_matched = [False] * len(methods)
 
     def get_path(self):
-        return self.agent_name if self.agent_name != "" else self.name
+        """Get the agent name, it is the name of the port if the port does not say what it matches."""
+
+        if self.agent_name == "" and not self.agents and not self.methods:
+            return self.name
+        return self.agent_name
 
     async def __call__(self):
         return await self.get()
-- 
2.43.0


From 3c4d1df5b0ccbd71456507cde7a5c093eff2fd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:07 +0000
Subject: [PATCH 14/33] fix: attach a model whose agent hook or port names an
 agent and one of its methods

---
 toffee/env.py | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/toffee/env.py b/toffee/env.py
index f12cbec..47b2403 100644
--- a/toffee/env.py
+++ b/toffee/env.py
@@ -119,37 +119,31 @@ class Env(MObject):
     def __is_agent_hook_contain_method(
         agent_hook, agent_name_of_method: str, method_name: str
     ) -> bool:
-        if (
+        matched = (
             agent_name_of_method == agent_hook.__agent_name__
             or agent_name_of_method in agent_hook.__agents__
-        ):
+        )
+        for i, method in enumerate(agent_hook.__methods__):
+            if method == f"{agent_name_of_method}.{method_name}":
+                agent_hook.__methods_matched__[i] = matched = True
+        if matched:
             agent_hook.__matched__[0] = True
-            return True
-        elif f"{agent_name_of_method}.{method_name}" in agent_hook.__methods__:
-            agent_hook.__matched__[0] = True
-            agent_hook.__methods_matched__[
-                agent_hook.__methods__.index(f"{agent_name_of_method}.{method_name}")
-            ] = True
-            return True
-        return False
+        return matched
 
     @staticmethod
     def __is_agent_port_contain_method(
         agent_port, agent_name_of_method: str, method_name: str
     ) -> bool:
-        if (
+        matched = (
             agent_name_of_method == agent_port.get_path()
             or agent_name_of_method in agent_port.agents
-        ):
-            agent_port.matched = True
-            return True
-        elif f"{agent_name_of_method}.{method_name}" in agent_port.methods:
+        )
+        for i, method in enumerate(agent_port.methods):
+            if method == f"{agent_name_of_method}.{method_name}":
+                agent_port.methods_matched[i] = matched = True
+        if matched:
             agent_port.matched = True
-            agent_port.methods_matched[
-                agent_port.methods.index(f"{agent_name_of_method}.{method_name}")
-            ] = True
-            return True
-        return False
+        return matched
 
     @staticmethod
     def __all_agent_hooks_contain_method(
-- 
2.43.0


From 6367d4c95a54baaa3d420123a41201ac49f18906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:26 +0000
Subject: [PATCH 15/33] fix: make CovGroup.stop_sample callable

---
 toffee/funcov.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/toffee/funcov.py b/toffee/funcov.py
index d2bbe7c..6aa1ccd 100644
--- a/toffee/funcov.py
+++ b/toffee/funcov.py
@@ -254,7 +254,7 @@ class CovGroup(object):
         self.cov_points = OrderedDict()
         self.hinted = False
         self.all_once = False
-        self.stop_sample = False
+        self.sample_disabled = False
         self.sample_count = 0
         self.sample_calln = 0
         return self
@@ -465,7 +465,7 @@ class CovGroup(object):
         sample the group
         """
         self.sample_calln += 1
-        if self.stop_sample:
+        if self.sample_disabled:
             return
         if self.hinted and self.all_once:
             return
@@ -485,7 +485,7 @@ class CovGroup(object):
         """
         check if the group is stoped
         """
-        if self.stop_sample:
+        if self.sample_disabled:
             return True
         return self.hinted and self.all_once
 
@@ -493,14 +493,14 @@ class CovGroup(object):
         """
         stop sampling
         """
-        self.stop_sample = True
+        self.sample_disabled = True
         return self
 
     def resume_sample(self):
         """
         resume sampling
         """
-        self.stop_sample = False
+        self.sample_disabled = False
         self.all_once = False
         return self
 
@@ -565,7 +565,7 @@ class CovGroup(object):
         )
         ret["__sample_count__"] = self.sample_count
         ret["__sample_calln__"] = self.sample_calln
-        ret["__stop_sample__"] = self.stop_sample
+        ret["__stop_sample__"] = self.sample_disabled
         return ret
 
     def __str__(self) -> str:
-- 
2.43.0


From 0f9f3705f0305a22a9f744c789ab51bb60730675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:27 +0000
Subject: [PATCH 16/33] fix: keep the state of a CovGroup exact when a bin
 raises or a point is deleted

---
 toffee/funcov.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/toffee/funcov.py b/toffee/funcov.py
index 6aa1ccd..ccde01e 100644
--- a/toffee/funcov.py
+++ b/toffee/funcov.py
@@ -401,6 +401,7 @@ class CovGroup(object):
     def __check__(points) -> bool:
         hinted = True
         onece = True
+        all_hints = {}
         for k, b in points["bins"].items():
             hints = points["hints"][k]
             checked = False
@@ -421,7 +422,9 @@ class CovGroup(object):
                 hinted = False
             if not (hinted and points["once"] == True):
                 onece = False
-            points["hints"][k] = hints
+            all_hints[k] = hints
+        # If a bin raises, the point is left as it was
+        points["hints"].update(all_hints)
         points["hinted"] = hinted
         return hinted, onece
 
@@ -471,14 +474,15 @@ class CovGroup(object):
             return
         self.sample_count += 1
         all_hinted = True
-        self.all_once = True
+        all_once = True
         for _, v in self.cov_points.items():
             hinted, onece = self.__check__(v)
             if not hinted:
                 all_hinted = False
             if not onece:
-                self.all_once = False
+                all_once = False
         self.hinted = all_hinted
+        self.all_once = all_once
         return self
 
     def sample_stoped(self):
@@ -551,7 +555,7 @@ class CovGroup(object):
             for k, v in self.cov_points.items()
         ]
         ret["name"] = self.name
-        ret["hinted"] = self.hinted
+        ret["hinted"] = self.is_all_covered() if self.cov_points else self.hinted
         ret["bin_num_total"] = bins_total
         ret["bin_num_hints"] = bins_hints
         ret["point_num_total"] = points_total
-- 
2.43.0


From b7ec39a4fd3f918d18bca34587b593c64a75072e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:09 +0000
Subject: [PATCH 17/33] fix: process a trailing conditional request before
 process_requests returns

---
 toffee/bundle.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index dc6cd63..ef6dc5b 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -526,8 +526,16 @@ class Bundle(MObject):
             request = [request]
         for req in request:
             self.__dut_requests__.put(req)
-        while not self.__dut_requests__.empty():
-            self.__dut_instance__.Step(1)
+        try:
+            while (
+                not self.__dut_requests__.empty()
+                or self.__blocked_request__ is not None
+            ):
+                self.__dut_instance__.Step(1)
+        finally:
+            # If a step failed, the rest of this batch is given up
+            self.__dut_requests__ = Queue()
+            self.__blocked_request__ = None
         ret = []
         for req in request:
             if isinstance(req, dict) and "__return_values__" in req:
-- 
2.43.0


From dabeedb131b47689d7a1abfaaa74ab8a8a9597d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:09 +0000
Subject: [PATCH 18/33] fix: answer requests on the edges of the bundle's
 current DUT only, once per edge

---
 toffee/bundle.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index ef6dc5b..a9342f0 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -401,6 +401,7 @@ class Bundle(MObject):
         self.__connect_method = PrefixBindMethod("")
         self.__dut_requests__ = Queue()
         self.__dut_instance__ = None
+        self.__response_duts__ = []  # DUTs that call this bundle on their rising edges
         self.__blocked_request__ = None
 
         self.__set_current_level_signal()
@@ -497,10 +498,16 @@ class Bundle(MObject):
         Args:
             dut: The dut to make the request response for.
         """
-        if self.__dut_instance__ is not None:
-            error("The dut instance is already set")
-        dut.StepRis(self.___dut_call_on_rise__)
         self.__dut_instance__ = dut
+        if any(dut is known_dut for known_dut in self.__response_duts__):
+            return
+
+        def on_rise(cycle):
+            if self.__dut_instance__ is dut:
+                self.___dut_call_on_rise__(cycle)
+
+        dut.StepRis(on_rise)
+        self.__response_duts__.append(dut)
 
     def process_requests(self, request: Optional[Union[Dict, List[Dict]]]):
         """
-- 
2.43.0


From 190553346eaef6367cef77391a57139879572af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:10 +0000
Subject: [PATCH 19/33] fix: leave the caller's dictionaries alone in assign
 and process_requests

---
 toffee/bundle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index a9342f0..09f0501 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -531,6 +531,8 @@ class Bundle(MObject):
             )
         if not isinstance(request, list):
             request = [request]
+        # The requests are consumed while they are processed, keep those of the caller
+        request = [dict(req) if isinstance(req, dict) else req for req in request]
         for req in request:
             self.__dut_requests__.put(req)
         try:
@@ -856,7 +858,7 @@ class Bundle(MObject):
 
         if "*" in item:
             self.set_all(item["*"])
-            del item["*"]
+            item = {key: value for key, value in item.items() if key != "*"}
 
         if multilevel:
             for signal, value in item.items():
-- 
2.43.0


From a48aa5ebb1ede019020fabb6473d4eb872cf724d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:11 +0000
Subject: [PATCH 20/33] fix: release signal lists, bundle lists and the clock
 of the old DUT when re-binding a bundle

---
 toffee/bundle.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index 09f0501..2cb69d2 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -1299,12 +1299,24 @@ class Bundle(MObject):
             signal_name: The name of the signal to remove.
         """
 
-        signal = getattr(self, signal_name)
+        signal = self.__dict__.pop(signal_name, None)
+        Bundle.__release_signal(signal)
+
+    @staticmethod
+    def __release_signal(signal):
+        """
+        Release a signal from a bundle it was connected to.
+
+        Args:
+            signal: The signal to release. It may be unconnected.
+        """
+
+        if not Bundle.__is_instance_of_xpin(signal):
+            return
         if hasattr(signal.xdata, "number_of_bundles_connected_to"):
             signal.xdata.number_of_bundles_connected_to -= 1
             if signal.xdata.number_of_bundles_connected_to == 0:
                 delattr(signal.xdata, "number_of_bundles_connected_to")
-        delattr(self, signal_name)
 
     def __unbind_all(self):
         """
@@ -1314,8 +1326,16 @@ class Bundle(MObject):
         for signal_name in self.current_level_signals:
             if hasattr(self, signal_name):
                 self.__remove_signal_attr(signal_name)
+        for _, signal_list in self.__all_signal_lists():
+            for idx, signal in enumerate(signal_list.signals):
+                Bundle.__release_signal(signal)
+                signal_list.signals[idx] = Signal()
         for _, sub_bundle in self.__all_sub_bundles():
             sub_bundle.__unbind_all()
+        for _, bundle_list in self.__all_bundle_lists():
+            for bundle in bundle_list.bundles:
+                bundle.__unbind_all()
+        self.__clock_event = None
 
     def __bind_from_signal_list(
         self,
-- 
2.43.0


From 954832b0ca7a70aa6e4fa6b6c9d0697b5bf73b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:12 +0000
Subject: [PATCH 21/33] fix: give each instance of a bundle class its own
 bundles in a BundleList

---
 toffee/bundle.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index 2cb69d2..b37aa7d 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -147,10 +147,12 @@ class BundleList:
 
     @classmethod
     def from_bundlelist(cls, old_bundle_list: "BundleList"):
-        bundle_list = cls(old_bundle_list.bundles[0], "#", 1)
+        bundle_list = cls.__new__(cls)
         bundle_list.format = old_bundle_list.format
         bundle_list.names = old_bundle_list.names[:]
-        bundle_list.bundles = old_bundle_list.bundles[:]
+        bundle_list.bundles = [
+            bundle._Bundle__recreate() for bundle in old_bundle_list.bundles
+        ]
         return bundle_list
 
 
@@ -408,10 +410,7 @@ class Bundle(MObject):
 
         # Recreate subbundles and signal lists for each instance
         for sub_bundle_name, sub_bundle in self.__all_sub_bundles():
-            new_sub_bundle = sub_bundle.__class__()
-            new_sub_bundle.current_level_signals = sub_bundle.current_level_signals
-            new_sub_bundle.__connect_method = sub_bundle.__connect_method
-            setattr(self, sub_bundle_name, new_sub_bundle)
+            setattr(self, sub_bundle_name, sub_bundle.__recreate())
 
         # Recreate signal lists for each instance
         for signal_list_name, signal_list in self.__all_signal_lists():
@@ -423,6 +422,16 @@ class Bundle(MObject):
             new_bundle_list = BundleList.from_bundlelist(bundle_list)
             setattr(self, bundle_list_name, new_bundle_list)
 
+    def __recreate(self):
+        """
+        Create a new bundle with the same signals and connect method.
+        """
+
+        new_bundle = self.__class__()
+        new_bundle.current_level_signals = self.current_level_signals
+        new_bundle.__connect_method = self.__connect_method
+        return new_bundle
+
     def ___dut_call_on_rise__(self, cycle):
         """
         Call the on rise method of target DUT.
-- 
2.43.0


From 61089eac8f7823884d96613861776eeba1112ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:23 +0000
Subject: [PATCH 22/33] fix: show the id of a log record as given on every
 output

---
 toffee/logger.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/toffee/logger.py b/toffee/logger.py
index 8d49fd7..353907c 100644
--- a/toffee/logger.py
+++ b/toffee/logger.py
@@ -1,3 +1,4 @@
+import copy
 import logging
 
 __all__ = [
@@ -60,6 +61,9 @@ class ToffeeFormatter(logging.Formatter):
     """
 
     def format(self, record):
+        # Other handlers get the same record, do not change it
+        record = copy.copy(record)
+
         if not hasattr(record, "log_id") or record.log_id == "":
             record.log_id = ""
         else:
-- 
2.43.0


From 286eca5f9ee7cdefe0c8dbb44ef8e17e4c5417da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:24 +0000
Subject: [PATCH 23/33] fix: reconfigure the logging when a previous output
 fails on closing

---
 toffee/logger.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/toffee/logger.py b/toffee/logger.py
index 353907c..617c308 100644
--- a/toffee/logger.py
+++ b/toffee/logger.py
@@ -134,7 +134,11 @@ def setup_logging(
 
     for handler in toffee_logger.handlers[:]:
         toffee_logger.removeHandler(handler)
-        handler.close()
+        try:
+            handler.close()
+        except (OSError, ValueError):
+            # The output of the previous configuration is failing, e.g. a full disk
+            pass
 
     toffee_logger.addHandler(stats_handler)
 
-- 
2.43.0


From b8aa729815389e0230e13df753d77d5c7fe11cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:24 +0000
Subject: [PATCH 24/33] fix: use the format given to setup_logging

---
 toffee/logger.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/toffee/logger.py b/toffee/logger.py
index 617c308..eb38a29 100644
--- a/toffee/logger.py
+++ b/toffee/logger.py
@@ -142,15 +142,17 @@ def setup_logging(
 
     toffee_logger.addHandler(stats_handler)
 
+    formatter = ToffeeFormatter(format)
+
     if console_display:
         screen_handler.setLevel(log_level)
-        screen_handler.setFormatter(default_formatter)
+        screen_handler.setFormatter(formatter)
         toffee_logger.addHandler(screen_handler)
 
     if log_file:
         fh = logging.FileHandler(log_file, mode="w")
         fh.setLevel(log_level)
-        fh.setFormatter(default_formatter)
+        fh.setFormatter(formatter)
         toffee_logger.addHandler(fh)
 
 
-- 
2.43.0


From 95879f5746947594a514410c4415b146ed201fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:02 +0000
Subject: [PATCH 25/33] fix: decide which pins could be connected to a specific
 signal

detect_specific_connectivity() failed with a TypeError for regex and dict
bundles, and took any signal of the level for the specific one.  Binding a
bundle made with from_dict() to a DUT that lacks a pin uses it, and crashed
when a key of the dictionary was also the name of a pin.
---
 toffee/bundle.py | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index b37aa7d..33127d4 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -234,7 +234,7 @@ class PrefixBindMethod(BindMethod):
                                 level_string, name_no_prefix
                             ),
                         )
-                        connected_signals.append(name_no_prefix)
+                    connected_signals.append(name_no_prefix)
                 elif signal_list_name_and_inst := self.get_matching_signal_list(
                     bundle, name_no_prefix
                 ):
@@ -248,7 +248,7 @@ class PrefixBindMethod(BindMethod):
                                 level_string, signal_list_name_and_inst[0]
                             ),
                         )
-                        connected_signals.append(name_no_prefix)
+                    connected_signals.append(name_no_prefix)
                 else:
                     matching_signals.append(
                         {
@@ -1389,16 +1389,23 @@ class Bundle(MObject):
                 error("specific signal could only be used in detection mode")
         else:
             if specific_signal is not None:
-                remain_signals += connected_signals
-                connected_signals = []
-
-                for signal in remain_signals:
-                    full_signal_name = Bundle.__appended_level_string(
-                        level_string, signal["name"]
-                    )
-                    if full_signal_name == specific_signal:
-                        connected_signals.append(signal)
-                        remain_signals.remove(signal)
+                # Signals of this level other than the specific one do not count
+                names = connected_signals[:]
+                for signal in connected_signals:
+                    signal_list = BindMethod.get_matching_signal_list(self, signal)
+                    if signal_list is not None:
+                        idx = signal_list[1].names.index(signal)
+                        names.append(f"{signal_list[0]}[{idx}]")
+
+                if specific_signal not in [
+                    Bundle.__appended_level_string(level_string, name) for name in names
+                ]:
+                    matching_names = [signal["org_name"] for signal in matching_signals]
+                    remain_signals = [
+                        signal
+                        for signal in all_signals
+                        if signal["org_name"] not in matching_names
+                    ]
 
             if all_signals_rule is not None:
                 for signal in self.current_level_signals:
@@ -1662,7 +1669,7 @@ class Bundle(MObject):
 
         filtered_dict = {}
         for key, value in dict.items():
-            if self.detect_specific_connectivity(key, could_connected_to):
+            if self.detect_specific_connectivity(value, could_connected_to):
                 filtered_dict[key] = value
         return filtered_dict
 
-- 
2.43.0


From f6a79b606d6b626cac1fa9d2bafc8627a369d97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:48 +0000
Subject: [PATCH 26/33] fix: ClockCycles waits on a bundle's clock even if the
 bundle has a signal named event

---
 toffee/triggers.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/toffee/triggers.py b/toffee/triggers.py
index dd93e99..a1f5300 100644
--- a/toffee/triggers.py
+++ b/toffee/triggers.py
@@ -20,15 +20,15 @@ async def ClockCycles(item, ncycles=1):
         ncycles: The number of clock cycles to be waited for.
     """
 
+    # item is Bundle, it may have a signal named event
+    if isinstance(item, Bundle):
+        await item.step(ncycles)
+
     # item is xpin
-    if hasattr(item, "event"):
+    elif hasattr(item, "event"):
         for _ in range(ncycles):
             await item.event.wait()
 
-    # item is Bundle
-    elif isinstance(item, Bundle):
-        await item.step(ncycles)
-
     # item is dut
     else:
         for _ in range(ncycles):
-- 
2.43.0


From b762b076b3c734a3212149e9ab1bcfde18ec340b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:15 +0000
Subject: [PATCH 27/33] fix: report a failure of a monitor that is no
 Exception, e.g. of pytest.fail()

---
 toffee/_base_agent.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/toffee/_base_agent.py b/toffee/_base_agent.py
index e9a141b..bf2c910 100644
--- a/toffee/_base_agent.py
+++ b/toffee/_base_agent.py
@@ -255,7 +255,9 @@ class Monitor(BaseAgent):
     async def __monitor_forever(self):
         try:
             await self.__monitor_loop()
-        except Exception as e:
+        except (asyncio.CancelledError, KeyboardInterrupt, SystemExit):
+            raise
+        except BaseException as e:
             # The monitor keeps its task referenced and nobody awaits it, so the failure has to be reported here
             asyncio.get_running_loop().call_exception_handler(
                 {
-- 
2.43.0


From ce940dc4502f75b6769abac7d8f473e88a0cdd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:32 +0000
Subject: [PATCH 28/33] fix: report the functions marked for a bin in an order
 that does not depend on hashing

---
 toffee/funcov.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/toffee/funcov.py b/toffee/funcov.py
index ccde01e..ab7fced 100644
--- a/toffee/funcov.py
+++ b/toffee/funcov.py
@@ -377,7 +377,7 @@ class CovGroup(object):
                 bins = [bin_key for bin_key in available_bins if pattern.match(bin_key)]
             assert len(bins) > 0, "No bin matched for pattern: %s" % b_name
             matched_bins.extend(bins)
-        for b_name in list(set(matched_bins)):
+        for b_name in dict.fromkeys(matched_bins):
             if b_name not in point["functions"]:
                 point["functions"][b_name] = set()
             if not isinstance(func, (list, tuple)):
@@ -538,7 +538,7 @@ class CovGroup(object):
         def collect_functions(v):
             ret = {}
             for k, d in v["functions"].items():
-                ret[k] = list(d)
+                ret[k] = sorted(d)
             return ret
 
         ret["points"] = [
-- 
2.43.0


From d5ffce8b2a93cbadcd509497681587d185e197b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:25 +0000
Subject: [PATCH 29/33] fix: keep the write modes of bundles inside a bundle
 when it is created, bound and bound again

---
 toffee/bundle.py | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index 33127d4..5e08ddd 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -430,6 +430,8 @@ class Bundle(MObject):
         new_bundle = self.__class__()
         new_bundle.current_level_signals = self.current_level_signals
         new_bundle.__connect_method = self.__connect_method
+        if self.write_mode is not None:
+            new_bundle.__record_write_mode(self.write_mode)
         return new_bundle
 
     def ___dut_call_on_rise__(self, cycle):
@@ -635,11 +637,39 @@ class Bundle(MObject):
             The bundle itself.
         """
 
-        self.write_mode = write_mode
+        self.__record_write_mode(write_mode)
         self.__set_all_signals_write_mode(write_mode)
 
         return self
 
+    def __record_write_mode(self, write_mode: WriteMode):
+        """
+        Record the write mode of the bundle and of all bundles in it, to be applied when the bundle is bound.
+
+        Args:
+            write_mode: The write mode to record.
+        """
+
+        self.write_mode = write_mode
+        for _, sub_bundle in self.__all_sub_bundles():
+            sub_bundle.__record_write_mode(write_mode)
+        for _, bundle_list in self.__all_bundle_lists():
+            for bundle in bundle_list.bundles:
+                bundle.__record_write_mode(write_mode)
+
+    def __apply_write_mode(self):
+        """
+        Apply the recorded write modes of the bundle and of all bundles in it to the connected signals.
+        """
+
+        if self.write_mode is not None:
+            self.__set_all_signals_write_mode(self.write_mode)
+        for _, sub_bundle in self.__all_sub_bundles():
+            sub_bundle.__apply_write_mode()
+        for _, bundle_list in self.__all_bundle_lists():
+            for bundle in bundle_list.bundles:
+                bundle.__apply_write_mode()
+
     def __set_all_signals_write_mode(self, write_mode: WriteMode):
         """
         Set the write mode of all signals in the bundle.
@@ -735,8 +765,7 @@ class Bundle(MObject):
         )
 
         self.bound = True
-        if self.write_mode is not None:
-            self.__set_all_signals_write_mode(self.write_mode)
+        self.__apply_write_mode()
         self.make_requset_response_for(dut)
         return self
 
-- 
2.43.0


From a6b6b362dbb7fe5477fdb8cbd3d73782a3af5265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:08 +0000
Subject: [PATCH 30/33] fix: deliver calls of drivers with a parameter named
 agent or another name for self

---
 toffee/_base_agent.py | 3 ++-
 toffee/agent.py       | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/toffee/_base_agent.py b/toffee/_base_agent.py
index bf2c910..aca3153 100644
--- a/toffee/_base_agent.py
+++ b/toffee/_base_agent.py
@@ -52,7 +52,8 @@ class Driver(BaseAgent):
         bound_args = signature.bind(None, *arg_list, **kwarg_list)
         bound_args.apply_defaults()
         arguments = bound_args.arguments
-        del arguments["self"]
+        # The first argument is the agent, whatever it is called
+        del arguments[next(iter(arguments))]
         return arguments
 
     async def __drive_single_model_ports(self, model_info, arg_list, kwarg_list):
diff --git a/toffee/agent.py b/toffee/agent.py
index b686d8a..0509e4a 100644
--- a/toffee/agent.py
+++ b/toffee/agent.py
@@ -127,7 +127,7 @@ def __driver_wrapped_func(func):
     func.__is_driver_decorated__ = True
 
     @functools.wraps(func)
-    async def wrapper(agent, *args, **kwargs):
+    async def wrapper(agent, /, *args, **kwargs):
         driver = agent.drivers[func.__name__]
         return await driver.process_driver_call(agent, args, kwargs)
 
-- 
2.43.0


From 8475882b07c3a7af80db26f24b1f4f5281531db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:25 +0000
Subject: [PATCH 31/33] fix: a request callable may return the same dictionary
 again

---
 toffee/bundle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/toffee/bundle.py b/toffee/bundle.py
index 5e08ddd..12b08a9 100644
--- a/toffee/bundle.py
+++ b/toffee/bundle.py
@@ -462,7 +462,8 @@ class Bundle(MObject):
             data = request(cycle, self)
             if data is None:
                 return
-            request = data
+            # The request is consumed while it is processed, the callable may return its dictionary again
+            request = dict(data)
         # check condition
         if "__condition_func__" in request:
             if not request["__condition_func__"](
-- 
2.43.0


From 0e9938ebcf8aa17b2800502744ef5b23bd67080d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:48 +0000
Subject: [PATCH 32/33] fix: hook decorators may be used for several hooks

---
 toffee/model.py | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/toffee/model.py b/toffee/model.py
index db311fa..01c8302 100644
--- a/toffee/model.py
+++ b/toffee/model.py
@@ -45,13 +45,13 @@ def agent_hook(
     ], "sche_order must be 'model_first' or 'dut_first'"
 
     def decorator(func):
-        nonlocal agent_name
-
-        if agent_name == "" and agents == [] and methods == []:
-            agent_name = func.__name__
+        # The decorator may be used for several functions
+        name = agent_name
+        if name == "" and agents == [] and methods == []:
+            name = func.__name__
 
         func.__is_agent_hook__ = True
-        func.__agent_name__ = agent_name
+        func.__agent_name__ = name
         func.__agents__ = agents
         func.__methods__ = methods
         func.__matched__ = [False]
@@ -101,19 +101,19 @@ def driver_hook(
     ], "sche_order must be 'model_first' or 'dut_first'"
 
     def decorator(func):
-        nonlocal driver_path, agent_name, driver_name
-
-        if driver_path == "":
+        # The decorator may be used for several functions
+        path = driver_path
+        if path == "":
             if agent_name != "":
                 if driver_name != "":
-                    driver_path = f"{agent_name}.{driver_name}"
+                    path = f"{agent_name}.{driver_name}"
                 else:
-                    driver_path = f"{agent_name}.{func.__name__}"
+                    path = f"{agent_name}.{func.__name__}"
             else:
-                driver_path = func.__name__.replace("__", ".")
+                path = func.__name__.replace("__", ".")
 
         func.__is_driver_hook__ = True
-        func.__driver_path__ = driver_path
+        func.__driver_path__ = path
         func.__matched__ = [False]
         func.__priority__ = priority
         func.__sche_order__ = sche_order
@@ -154,20 +154,20 @@ def monitor_hook(
     assert priority in range(0, 100), "priority should be between 0 and 99"
 
     def decorator(func):
-        nonlocal monitor_path, agent_name, monitor_name
-
-        if monitor_path == "":
+        # The decorator may be used for several functions
+        path = monitor_path
+        if path == "":
             if agent_name != "":
                 if monitor_name != "":
-                    monitor_path = f"{agent_name}.{monitor_name}"
+                    path = f"{agent_name}.{monitor_name}"
                 else:
-                    monitor_path = f"{agent_name}.{func.__name__}"
+                    path = f"{agent_name}.{func.__name__}"
             else:
-                monitor_path = func.__name__.replace("__", ".")
+                path = func.__name__.replace("__", ".")
 
         func.__is_monitor_hook__ = True
         func.__priority__ = priority
-        func.__monitor_path__ = monitor_path
+        func.__monitor_path__ = path
         func.__matched__ = [False]
 
         return func
-- 
2.43.0


From 47a7518d7cae8085e9bd8ac995de177006d6953b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:32 +0000
Subject: [PATCH 33/33] fix: a driver or monitor may call the one it overrides

---
 toffee/agent.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/toffee/agent.py b/toffee/agent.py
index 0509e4a..3729e86 100644
--- a/toffee/agent.py
+++ b/toffee/agent.py
@@ -129,6 +129,9 @@ def __driver_wrapped_func(func):
     @functools.wraps(func)
     async def wrapper(agent, /, *args, **kwargs):
         driver = agent.drivers[func.__name__]
+        # A driver overridden in a subclass is called by the one that overrides it and is part of that call
+        if driver.func is not func:
+            return await func(agent, *args, **kwargs)
         return await driver.process_driver_call(agent, args, kwargs)
 
     wrapper.__original_func__ = func
@@ -155,6 +158,9 @@ def __monitor_wrapped_func(func):
     @functools.wraps(func)
     async def wrapper(agent, *args, **kwargs):
         monitor = agent.monitors[func.__name__]
+        # A monitor overridden in a subclass is called by the one that overrides it
+        if monitor.func is not func:
+            return await func(agent, *args, **kwargs)
         return await monitor.get_queue.get()
 
     wrapper.__original_func__ = func
-- 
2.43.0

