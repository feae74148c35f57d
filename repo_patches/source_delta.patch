From aa6b286c1203fab4a5c6fa52416c96d9773e335c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:27 +0000
Subject: [PATCH 01/40] fix: use collections.abc.Iterable in
 recurrent.unchain_backward

collections.Iterable was removed in Python 3.10, so every on-policy agent
that unchains recurrent states failed with AttributeError.
---
 chainerrl/recurrent.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chainerrl/recurrent.py b/chainerrl/recurrent.py
index 997e59e..952fe36 100644
--- a/chainerrl/recurrent.py
+++ b/chainerrl/recurrent.py
@@ -1,6 +1,6 @@
 from abc import ABCMeta
 from abc import abstractmethod
-import collections
+import collections.abc
 import contextlib
 
 import chainer
@@ -8,7 +8,7 @@ import chainer
 
 def unchain_backward(state):
     """Call Variable.unchain_backward recursively."""
-    if isinstance(state, collections.Iterable):
+    if isinstance(state, collections.abc.Iterable):
         for s in state:
             unchain_backward(s)
     elif isinstance(state, chainer.Variable):
-- 
2.43.0


From d36ab58e1a4a093e3e4f59a53a10c5ae775bb988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:27 +0000
Subject: [PATCH 02/40] fix: end demonstration episodes after max_episode_len
 steps

The time limit was tested before the step was counted, so episodes cut by
max_episode_len were max_episode_len + 1 steps long.
---
 chainerrl/experiments/collect_demos.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chainerrl/experiments/collect_demos.py b/chainerrl/experiments/collect_demos.py
index 0fd1c42..201cfc0 100644
--- a/chainerrl/experiments/collect_demos.py
+++ b/chainerrl/experiments/collect_demos.py
@@ -52,10 +52,10 @@ def collect_demonstrations(agent,
             # o_t, a_t, r__{t+1}, o_{t+1}
             dataset.write((obs, a, r, new_obs, done, info))
             obs = new_obs
-            reset = (done or episode_len == max_episode_len
-                     or info.get('needs_reset', False))
             timestep += 1
             episode_len += 1
+            reset = (done or episode_len == max_episode_len
+                     or info.get('needs_reset', False))
             episode_r += r
             episode_num = episode_num + 1 if reset else episode_num
             if steps is None:
-- 
2.43.0


From 8213b4ea42b0e8f33ef346946ba223bb87d4c5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:27 +0000
Subject: [PATCH 03/40] fix: restore the initial state of LSTM links in
 set_state

A saved initial state (None, None) was ignored, so leaving state_kept or
state_reset did not restore the state when it was the initial one.
---
 chainerrl/recurrent.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chainerrl/recurrent.py b/chainerrl/recurrent.py
index 952fe36..566d452 100644
--- a/chainerrl/recurrent.py
+++ b/chainerrl/recurrent.py
@@ -120,6 +120,8 @@ def set_state(chain, state):
             # LSTM.set_state doesn't accept None state
             if c is not None:
                 link.set_state(c, h)
+            else:
+                link.reset_state()
         elif isinstance(link, Recurrent):
             link.set_state(s)
         elif isinstance(link, (chainer.Chain, chainer.ChainList)):
-- 
2.43.0


From ad5fde8b3b69d6f30f42931af509163eba9132f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:27 +0000
Subject: [PATCH 04/40] fix: restore recurrent states when a state context is
 left by an exception

state_kept and state_reset left the model in the inner state, and the saved
state on the shared stack, when their body raised.
---
 chainerrl/recurrent.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/chainerrl/recurrent.py b/chainerrl/recurrent.py
index 566d452..2a727c2 100644
--- a/chainerrl/recurrent.py
+++ b/chainerrl/recurrent.py
@@ -78,14 +78,18 @@ class Recurrent(object, metaclass=ABCMeta):
     @contextlib.contextmanager
     def state_reset(self):
         self.push_state()
-        yield
-        self.pop_state()
+        try:
+            yield
+        finally:
+            self.pop_state()
 
     @contextlib.contextmanager
     def state_kept(self):
         self.push_and_keep_state()
-        yield
-        self.pop_state()
+        try:
+            yield
+        finally:
+            self.pop_state()
 
 
 def get_state(chain):
@@ -188,8 +192,10 @@ def state_kept(link):
     """
     if isinstance(link, Recurrent):
         link.push_and_keep_state()
-        yield
-        link.pop_state()
+        try:
+            yield
+        finally:
+            link.pop_state()
     else:
         yield
 
@@ -223,7 +229,9 @@ def state_reset(link):
     """
     if isinstance(link, Recurrent):
         link.push_state()
-        yield
-        link.pop_state()
+        try:
+            yield
+        finally:
+            link.pop_state()
     else:
         yield
-- 
2.43.0


From 1a50346b42830698c47e1ae31f61b36491ebb173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:54 +0000
Subject: [PATCH 05/40] fix: never draw an item twice in one sample of
 PrioritizedBuffer

With wait_priority_after_sampling=False and uniform_ratio > 0, an item drawn
uniformly was put back before the prioritized draws and could be drawn again.
---
 chainerrl/misc/prioritized.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/chainerrl/misc/prioritized.py b/chainerrl/misc/prioritized.py
index 33e8cc6..3d7f869 100644
--- a/chainerrl/misc/prioritized.py
+++ b/chainerrl/misc/prioritized.py
@@ -46,8 +46,7 @@ class PrioritizedBuffer (object):
             # Mix uniform samples and prioritized samples
             n_uniform = np.random.binomial(n, uniform_ratio)
             un_indices, un_priorities = \
-                self.priority_sums.uniform_sample(
-                    n_uniform, remove=self.wait_priority_after_sampling)
+                self.priority_sums.uniform_sample(n_uniform, remove=True)
             indices.extend(un_indices)
             priorities.extend(un_priorities)
             n -= n_uniform
@@ -55,11 +54,14 @@ class PrioritizedBuffer (object):
                 + (1 - uniform_ratio) * min_prob
 
         pr_indices, pr_priorities = \
-            self.priority_sums.prioritized_sample(
-                n, remove=self.wait_priority_after_sampling)
+            self.priority_sums.prioritized_sample(n, remove=True)
         indices.extend(pr_indices)
         priorities.extend(pr_priorities)
 
+        if not self.wait_priority_after_sampling:
+            for ix, pri in zip(indices, priorities):
+                self.priority_sums[ix] = pri
+
         probs = [
             uniform_ratio / len(self)
             + (1 - uniform_ratio) * pri / total_priority
-- 
2.43.0


From f5f9327529125e65f797f7bdb4e29d2553cc4c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:54 +0000
Subject: [PATCH 06/40] fix: update the priorities of the items sampled, not of
 their positions

Items evicted between PrioritizedBuffer.sample and set_last_priority shifted
the remaining ones, so priorities were assigned to the wrong items.
---
 chainerrl/misc/prioritized.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/chainerrl/misc/prioritized.py b/chainerrl/misc/prioritized.py
index 3d7f869..feb93d6 100644
--- a/chainerrl/misc/prioritized.py
+++ b/chainerrl/misc/prioritized.py
@@ -16,6 +16,7 @@ class PrioritizedBuffer (object):
         self.max_priority = initial_max_priority
         self.wait_priority_after_sampling = wait_priority_after_sampling
         self.flag_wait_priority = False
+        self.sampled_indices = []
 
     def __len__(self):
         return len(self.data)
@@ -35,6 +36,8 @@ class PrioritizedBuffer (object):
         assert len(self) > 0
         self.priority_sums.popleft()
         self.priority_mins.popleft()
+        # Sampled items waiting for priorities move to the left
+        self.sampled_indices = [i - 1 for i in self.sampled_indices]
         return self.data.popleft()
 
     def _sample_indices_and_probabilities(self, n, uniform_ratio):
@@ -95,6 +98,9 @@ class PrioritizedBuffer (object):
         assert all([p > 0.0 for p in priority])
         assert len(self.sampled_indices) == len(priority)
         for i, p in zip(self.sampled_indices, priority):
+            if i < 0:
+                # The item has been removed since it was sampled
+                continue
             self.priority_sums[i] = p
             self.priority_mins[i] = p
             self.max_priority = max(self.max_priority, p)
-- 
2.43.0


From 28218e370ecf5b1336e51ff98f2bd385698ace60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:29 +0000
Subject: [PATCH 07/40] fix: keep the transitions and episodes of
 PrioritizedEpisodicReplayBuffer in step

memory dropped single old transitions while episodic_memory dropped whole
episodes, so len() and sample() covered transitions of discarded episodes or
missed some of the stored ones; the remaining capacity was also wrong after
load(), and sample() returned bare transitions where every other buffer
returns lists of them.
---
 chainerrl/replay_buffers/prioritized_episodic.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/chainerrl/replay_buffers/prioritized_episodic.py b/chainerrl/replay_buffers/prioritized_episodic.py
index e692cb1..3c17db8 100644
--- a/chainerrl/replay_buffers/prioritized_episodic.py
+++ b/chainerrl/replay_buffers/prioritized_episodic.py
@@ -24,8 +24,8 @@ class PrioritizedEpisodicReplayBuffer (
         self.episodic_memory = PrioritizedBuffer(
             capacity=None,
             wait_priority_after_sampling=wait_priority_after_sampling)
-        self.memory = RandomAccessQueue(maxlen=capacity)
-        self.capacity_left = capacity
+        self.memory = RandomAccessQueue()
+        self.capacity = capacity
         self.default_priority_func = default_priority_func
         self.uniform_ratio = uniform_ratio
         self.return_sample_weights = return_sample_weights
@@ -57,12 +57,13 @@ class PrioritizedEpisodicReplayBuffer (
                 priority = self.default_priority_func(current_episode)
             else:
                 priority = None
-            self.memory.extend(current_episode)
             self.episodic_memory.append(current_episode, priority=priority)
-            if self.capacity_left is not None:
-                self.capacity_left -= len(current_episode)
+            for transition in current_episode:
+                self.memory.append([transition])
             self.current_episode[env_id] = []
-            while self.capacity_left is not None and self.capacity_left < 0:
+            while self.capacity is not None and \
+                    len(self.memory) > self.capacity:
                 discarded_episode = self.episodic_memory.popleft()
-                self.capacity_left += len(discarded_episode)
+                for _ in range(len(discarded_episode)):
+                    self.memory.popleft()
         assert not self.current_episode[env_id]
-- 
2.43.0


From 5ca258ca6e12c318a341ec7bb103c33266aac139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:02 +0000
Subject: [PATCH 08/40] fix: keep the best score of AsyncEvaluator in double
 precision

The best score was rounded to single precision, so an evaluation that only
equalled it could be saved as best again and a slightly better one missed.
---
 chainerrl/experiments/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainerrl/experiments/evaluator.py b/chainerrl/experiments/evaluator.py
index c333fbc..acb2bc4 100644
--- a/chainerrl/experiments/evaluator.py
+++ b/chainerrl/experiments/evaluator.py
@@ -395,7 +395,7 @@ class AsyncEvaluator(object):
         # Values below are shared among processes
         self.prev_eval_t = mp.Value(
             'l', self.step_offset - self.step_offset % self.eval_interval)
-        self._max_score = mp.Value('f', np.finfo(np.float32).min)
+        self._max_score = mp.Value('d', np.finfo(np.float32).min)
         self.wrote_header = mp.Value('b', False)
 
         # Create scores.txt
-- 
2.43.0


From e96c670f84375ff1e656b0418602fd2580deb462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:02 +0000
Subject: [PATCH 09/40] fix: stop batch training when the successful score is
 exactly zero

The returned score was tested for truth, so an evaluation with mean 0.0 never
ended training even when it reached successful_score.
---
 chainerrl/experiments/train_agent_batch.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/chainerrl/experiments/train_agent_batch.py b/chainerrl/experiments/train_agent_batch.py
index d9e60f9..27cc109 100644
--- a/chainerrl/experiments/train_agent_batch.py
+++ b/chainerrl/experiments/train_agent_batch.py
@@ -107,11 +107,11 @@ def train_agent_batch(agent, env, steps, outdir,
                     ))
                 logger.info('statistics: {}'.format(agent.get_statistics()))
             if evaluator:
-                if evaluator.evaluate_if_necessary(
-                        t=t, episodes=np.sum(episode_idx)):
-                    if (successful_score is not None and
-                            evaluator.max_score >= successful_score):
-                        break
+                evaluator.evaluate_if_necessary(
+                    t=t, episodes=np.sum(episode_idx))
+                if (successful_score is not None and
+                        evaluator.max_score >= successful_score):
+                    break
 
             if t >= steps:
                 break
-- 
2.43.0


From 33b877d22070c36031e673dcbb39dda7391ee3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:36 +0000
Subject: [PATCH 10/40] fix: return the current observation from
 FireResetEnv.reset

---
 chainerrl/wrappers/atari_wrappers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chainerrl/wrappers/atari_wrappers.py b/chainerrl/wrappers/atari_wrappers.py
index e6185e9..214bf0e 100644
--- a/chainerrl/wrappers/atari_wrappers.py
+++ b/chainerrl/wrappers/atari_wrappers.py
@@ -63,10 +63,10 @@ class FireResetEnv(gym.Wrapper):
         self.env.reset(**kwargs)
         obs, _, done, info = self.env.step(1)
         if done or info.get('needs_reset', False):
-            self.env.reset(**kwargs)
+            obs = self.env.reset(**kwargs)
         obs, _, done, info = self.env.step(2)
         if done or info.get('needs_reset', False):
-            self.env.reset(**kwargs)
+            obs = self.env.reset(**kwargs)
         return obs
 
     def step(self, ac):
-- 
2.43.0


From d58355fb96abd5fd8e4adf325b591029cc1a1579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:36 +0000
Subject: [PATCH 11/40] fix: reset for real when the no-op of
 EpisodicLifeEnv.reset ends the episode

---
 chainerrl/wrappers/atari_wrappers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/chainerrl/wrappers/atari_wrappers.py b/chainerrl/wrappers/atari_wrappers.py
index 214bf0e..bf80d77 100644
--- a/chainerrl/wrappers/atari_wrappers.py
+++ b/chainerrl/wrappers/atari_wrappers.py
@@ -108,7 +108,9 @@ class EpisodicLifeEnv(gym.Wrapper):
             obs = self.env.reset(**kwargs)
         else:
             # no-op step to advance from terminal/lost life state
-            obs, _, _, _ = self.env.step(0)
+            obs, _, done, info = self.env.step(0)
+            if done or info.get('needs_reset', False):
+                obs = self.env.reset(**kwargs)
         self.lives = self.env.unwrapped.ale.lives()
         return obs
 
-- 
2.43.0


From d65339a28640ebe381a23aea8d234211243a3936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:36 +0000
Subject: [PATCH 12/40] fix: never mix frames of an earlier step into the frame
 of MaxAndSkipEnv

---
 chainerrl/wrappers/atari_wrappers.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/chainerrl/wrappers/atari_wrappers.py b/chainerrl/wrappers/atari_wrappers.py
index bf80d77..cdf8259 100644
--- a/chainerrl/wrappers/atari_wrappers.py
+++ b/chainerrl/wrappers/atari_wrappers.py
@@ -130,15 +130,11 @@ class MaxAndSkipEnv(gym.Wrapper):
         done = None
         for i in range(self._skip):
             obs, reward, done, info = self.env.step(action)
-            if i == self._skip - 2:
-                self._obs_buffer[0] = obs
-            if i == self._skip - 1:
-                self._obs_buffer[1] = obs
+            self._obs_buffer[0] = obs if i == 0 else self._obs_buffer[1]
+            self._obs_buffer[1] = obs
             total_reward += reward
             if done or info.get('needs_reset', False):
                 break
-        # Note that the observation on the done=True frame
-        # doesn't matter
         max_frame = self._obs_buffer.max(axis=0)
 
         return max_frame, total_reward, done, info
-- 
2.43.0


From 32f7af1cddafaf160932b2053a3e1ec7269f8440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:42 +0000
Subject: [PATCH 13/40] fix: return the spec of the envs from
 SerialVectorEnv.spec

---
 chainerrl/envs/serial_vector_env.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/chainerrl/envs/serial_vector_env.py b/chainerrl/envs/serial_vector_env.py
index 68fc093..13f79d4 100644
--- a/chainerrl/envs/serial_vector_env.py
+++ b/chainerrl/envs/serial_vector_env.py
@@ -18,7 +18,10 @@ class SerialVectorEnv(chainerrl.env.VectorEnv):
         self.last_obs = [None] * self.num_envs
         self.action_space = envs[0].action_space
         self.observation_space = envs[0].observation_space
-        self.spec = envs[0].observation_space
+
+    @property
+    def spec(self):
+        return self.envs[0].spec
 
     def step(self, actions):
         results = [env.step(a) for env, a in zip(self.envs, actions)]
-- 
2.43.0


From 0666ef6b6d047fe1b918733392cb004a6443b871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:28 +0000
Subject: [PATCH 14/40] fix: restart the game when the null actions of
 ALE.initialize end it

---
 chainerrl/envs/ale.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chainerrl/envs/ale.py b/chainerrl/envs/ale.py
index 61fe383..9afdad5 100644
--- a/chainerrl/envs/ale.py
+++ b/chainerrl/envs/ale.py
@@ -221,6 +221,8 @@ class ALE(env.Env):
             n_nullops = np.random.randint(0, self.max_start_nullops + 1)
             for _ in range(n_nullops):
                 self.ale.act(0)
+                if self.ale.game_over():
+                    self.ale.reset_game()
 
         self._reward = 0
 
-- 
2.43.0


From 4cafda29ab991aca4b5c48b72c34a2e72f9c275d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 15/40] fix: TD3 performs n_times_update updates each time, as
 its argument says

---
 chainerrl/agents/td3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainerrl/agents/td3.py b/chainerrl/agents/td3.py
index 4077e77..cb9b6eb 100644
--- a/chainerrl/agents/td3.py
+++ b/chainerrl/agents/td3.py
@@ -130,7 +130,7 @@ class TD3(AttributeSavingMixin, BatchAgent):
             replay_buffer=replay_buffer,
             update_func=self.update,
             batchsize=minibatch_size,
-            n_times_update=1,
+            n_times_update=n_times_update,
             replay_start_size=replay_start_size,
             update_interval=update_interval,
             episodic_update=False,
-- 
2.43.0


From c52ad1534aa61732bdbd23a479eff9f27e581b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 16/40] fix: DDPG discounts the bootstrap value of n-step
 transitions by gamma^n

---
 chainerrl/agents/ddpg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chainerrl/agents/ddpg.py b/chainerrl/agents/ddpg.py
index 7d8a112..d8cf1de 100644
--- a/chainerrl/agents/ddpg.py
+++ b/chainerrl/agents/ddpg.py
@@ -176,6 +176,7 @@ class DDPG(AttributeSavingMixin, BatchAgent):
         batch_terminal = batch['is_state_terminal']
         batch_state = batch['state']
         batch_actions = batch['action']
+        batch_discount = batch['discount']
         batchsize = len(batch_rewards)
 
         with chainer.no_backprop_mode():
@@ -194,7 +195,7 @@ class DDPG(AttributeSavingMixin, BatchAgent):
                 self.target_q_function.update_state(
                     batch_next_state, batch_next_actions)
 
-            target_q = batch_rewards + self.gamma * \
+            target_q = batch_rewards + batch_discount * \
                 (1.0 - batch_terminal) * F.reshape(next_q, (batchsize,))
 
         # Estimated Q-function observes s_t and a_t
-- 
2.43.0


From af7d8bc690bfb6258b6c9cb5e31955d7ad5e82ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 17/40] fix: evaluate DQN target networks in test mode, so that
 updates leave their BatchNorm statistics alone

---
 chainerrl/agents/al.py              | 2 +-
 chainerrl/agents/categorical_dqn.py | 2 +-
 chainerrl/agents/double_pal.py      | 2 +-
 chainerrl/agents/dpp.py             | 2 +-
 chainerrl/agents/dqn.py             | 2 +-
 chainerrl/agents/iqn.py             | 2 +-
 chainerrl/agents/pal.py             | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/chainerrl/agents/al.py b/chainerrl/agents/al.py
index e7719f0..5d04798 100644
--- a/chainerrl/agents/al.py
+++ b/chainerrl/agents/al.py
@@ -39,7 +39,7 @@ class AL(dqn.DQN):
         # Compute target values
         batch_next_state = exp_batch['next_state']
 
-        with chainer.no_backprop_mode():
+        with chainer.using_config('train', False), chainer.no_backprop_mode():
             if self.recurrent:
                 target_qout, _ = self.target_model.n_step_forward(
                     batch_state, exp_batch['recurrent_state'],
diff --git a/chainerrl/agents/categorical_dqn.py b/chainerrl/agents/categorical_dqn.py
index 1d4a649..d4d2479 100644
--- a/chainerrl/agents/categorical_dqn.py
+++ b/chainerrl/agents/categorical_dqn.py
@@ -168,7 +168,7 @@ class CategoricalDQN(dqn.DQN):
         batch_q = qout.evaluate_actions_as_distribution(batch_actions)
         assert batch_q.shape == (batch_size, n_atoms)
 
-        with chainer.no_backprop_mode():
+        with chainer.using_config('train', False), chainer.no_backprop_mode():
             batch_q_target = self._compute_target_values(exp_batch)
             assert batch_q_target.shape == (batch_size, n_atoms)
 
diff --git a/chainerrl/agents/double_pal.py b/chainerrl/agents/double_pal.py
index e65c748..a5c298f 100644
--- a/chainerrl/agents/double_pal.py
+++ b/chainerrl/agents/double_pal.py
@@ -23,7 +23,7 @@ class DoublePAL(pal.PAL):
 
         # Compute target values
 
-        with chainer.no_backprop_mode():
+        with chainer.using_config('train', False), chainer.no_backprop_mode():
             batch_next_state = exp_batch['next_state']
             if self.recurrent:
                 next_qout, _ = self.model.n_step_forward(
diff --git a/chainerrl/agents/dpp.py b/chainerrl/agents/dpp.py
index d82a3de..2140dea 100644
--- a/chainerrl/agents/dpp.py
+++ b/chainerrl/agents/dpp.py
@@ -52,7 +52,7 @@ class AbstractDPP(DQN, metaclass=ABCMeta):
         batch_q = F.reshape(qout.evaluate_actions(
             batch_actions), (batch_size, 1))
 
-        with chainer.no_backprop_mode():
+        with chainer.using_config('train', False), chainer.no_backprop_mode():
             # Compute target values
             if self.recurrent:
                 target_qout, _ = self.target_model.n_step_forward(
diff --git a/chainerrl/agents/dqn.py b/chainerrl/agents/dqn.py
index 2c74e1c..7dcb315 100644
--- a/chainerrl/agents/dqn.py
+++ b/chainerrl/agents/dqn.py
@@ -322,7 +322,7 @@ class DQN(agent.AttributeSavingMixin, agent.BatchAgent):
         batch_q = F.reshape(qout.evaluate_actions(
             batch_actions), (batch_size, 1))
 
-        with chainer.no_backprop_mode():
+        with chainer.using_config('train', False), chainer.no_backprop_mode():
             batch_q_target = F.reshape(
                 self._compute_target_values(exp_batch),
                 (batch_size, 1))
diff --git a/chainerrl/agents/iqn.py b/chainerrl/agents/iqn.py
index 1ca3f8c..3110930 100644
--- a/chainerrl/agents/iqn.py
+++ b/chainerrl/agents/iqn.py
@@ -377,7 +377,7 @@ class IQN(dqn.DQN):
                 chainer.Variable: Scalar loss.
         """
         y, taus = self._compute_y_and_taus(exp_batch)
-        with chainer.no_backprop_mode():
+        with chainer.using_config('train', False), chainer.no_backprop_mode():
             t = self._compute_target_values(exp_batch)
 
         eltwise_loss = compute_eltwise_huber_quantile_loss(y, t, taus)
diff --git a/chainerrl/agents/pal.py b/chainerrl/agents/pal.py
index 7514439..adde7fc 100644
--- a/chainerrl/agents/pal.py
+++ b/chainerrl/agents/pal.py
@@ -37,7 +37,7 @@ class PAL(dqn.DQN):
 
         # Compute target values
         batch_next_state = exp_batch['next_state']
-        with chainer.no_backprop_mode():
+        with chainer.using_config('train', False), chainer.no_backprop_mode():
             if self.recurrent:
                 target_qout, _ = self.target_model.n_step_forward(
                     batch_state, exp_batch['recurrent_state'],
-- 
2.43.0


From 690f468fc2a3448c20467589f3b4201695bfb0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 18/40] fix: evaluate DDPG and PGT target networks in test
 mode, so that updates leave their BatchNorm statistics alone

---
 chainerrl/agents/ddpg.py | 2 +-
 chainerrl/agents/pgt.py  | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/chainerrl/agents/ddpg.py b/chainerrl/agents/ddpg.py
index d8cf1de..a51482e 100644
--- a/chainerrl/agents/ddpg.py
+++ b/chainerrl/agents/ddpg.py
@@ -179,7 +179,7 @@ class DDPG(AttributeSavingMixin, BatchAgent):
         batch_discount = batch['discount']
         batchsize = len(batch_rewards)
 
-        with chainer.no_backprop_mode():
+        with chainer.using_config('train', False), chainer.no_backprop_mode():
             # Target policy observes s_{t+1}
             next_actions = self.target_policy(
                 batch_next_state).sample()
diff --git a/chainerrl/agents/pgt.py b/chainerrl/agents/pgt.py
index 63e33da..d4dd8b6 100644
--- a/chainerrl/agents/pgt.py
+++ b/chainerrl/agents/pgt.py
@@ -152,7 +152,8 @@ class PGT(AttributeSavingMixin, Agent):
         # Update Q-function
         def compute_critic_loss():
 
-            with chainer.no_backprop_mode():
+            with chainer.using_config('train', False),\
+                    chainer.no_backprop_mode():
                 pout = self.target_policy(batch_next_state)
                 next_actions = pout.sample()
                 next_q = self.target_q_function(batch_next_state, next_actions)
-- 
2.43.0


From 63a7937de72503210de9620d741b2b99b72a83cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:31 +0000
Subject: [PATCH 19/40] fix: PPO/TRPO recurrent minibatches no longer fail when
 the dataset size is not a multiple of the minibatch size

---
 chainerrl/agents/ppo.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/chainerrl/agents/ppo.py b/chainerrl/agents/ppo.py
index 6ce29fc..1d07892 100644
--- a/chainerrl/agents/ppo.py
+++ b/chainerrl/agents/ppo.py
@@ -156,7 +156,7 @@ def _yield_subset_of_sequences_with_fixed_number_of_items(
     while stack:
         subset = []
         count = 0
-        while count < n_items:
+        while stack and count < n_items:
             sequence = stack.pop()
             subset.append(sequence)
             count += len(sequence)
@@ -167,7 +167,8 @@ def _yield_subset_of_sequences_with_fixed_number_of_items(
             assert n_exceeds > 0
             subset[-1] = sequence_to_split[:-n_exceeds]
             stack.append(sequence_to_split[-n_exceeds:])
-        assert sum(len(seq) for seq in subset) == n_items
+        # The last subset is smaller if n_items does not divide the total
+        assert sum(len(seq) for seq in subset) == min(count, n_items)
         yield subset
 
 
-- 
2.43.0


From 8fcda30fce22b0c3a3f6ebc896d3caaff24f83fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:39 +0000
Subject: [PATCH 20/40] fix: TRPO uses the batch_states function it is given in
 every part of the update

---
 chainerrl/agents/trpo.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/chainerrl/agents/trpo.py b/chainerrl/agents/trpo.py
index 9e88b47..ea96f06 100644
--- a/chainerrl/agents/trpo.py
+++ b/chainerrl/agents/trpo.py
@@ -356,7 +356,7 @@ class TRPO(agent.AttributeSavingMixin, agent.Agent):
 
     def _update_obs_normalizer(self, dataset):
         assert self.obs_normalizer
-        states = batch_states(
+        states = self.batch_states(
             [b['state'] for b in dataset], self.obs_normalizer.xp, self.phi)
         self.obs_normalizer.experience(states)
 
@@ -376,7 +376,8 @@ class TRPO(agent.AttributeSavingMixin, agent.Agent):
 
         while dataset_iter.epoch < self.vf_epochs:
             batch = dataset_iter.__next__()
-            states = batch_states([b['state'] for b in batch], xp, self.phi)
+            states = self.batch_states(
+                [b['state'] for b in batch], xp, self.phi)
             if self.obs_normalizer:
                 states = self.obs_normalizer(states, update=False)
             vs_teacher = xp.array(
@@ -404,7 +405,7 @@ class TRPO(agent.AttributeSavingMixin, agent.Agent):
 
         # Use full-batch
         xp = self.policy.xp
-        states = batch_states([b['state'] for b in dataset], xp, self.phi)
+        states = self.batch_states([b['state'] for b in dataset], xp, self.phi)
         if self.obs_normalizer:
             states = self.obs_normalizer(states, update=False)
         actions = xp.array([b['action'] for b in dataset])
-- 
2.43.0


From 8125932deae5d92973bceb950f6554cb7d2b95c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:53 +0000
Subject: [PATCH 21/40] fix: DDPG, TD3 and SAC use the batch_states function
 they are given in updates too

---
 chainerrl/agents/ddpg.py              | 7 +++++--
 chainerrl/agents/soft_actor_critic.py | 4 +++-
 chainerrl/agents/td3.py               | 4 +++-
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/chainerrl/agents/ddpg.py b/chainerrl/agents/ddpg.py
index a51482e..e8f45ab 100644
--- a/chainerrl/agents/ddpg.py
+++ b/chainerrl/agents/ddpg.py
@@ -254,7 +254,9 @@ class DDPG(AttributeSavingMixin, BatchAgent):
     def update(self, experiences, errors_out=None):
         """Update the model from experiences"""
 
-        batch = batch_experiences(experiences, self.xp, self.phi, self.gamma)
+        batch = batch_experiences(
+            experiences, self.xp, self.phi, self.gamma,
+            batch_states=self.batch_states)
         self.critic_optimizer.update(lambda: self.compute_critic_loss(batch))
         self.actor_optimizer.update(lambda: self.compute_actor_loss(batch))
 
@@ -272,7 +274,8 @@ class DDPG(AttributeSavingMixin, BatchAgent):
                     break
                 transitions.append([ep[i]])
             batch = batch_experiences(
-                transitions, xp=self.xp, phi=self.phi, gamma=self.gamma)
+                transitions, xp=self.xp, phi=self.phi, gamma=self.gamma,
+                batch_states=self.batch_states)
             batches.append(batch)
 
         with self.model.state_reset(), self.target_model.state_reset():
diff --git a/chainerrl/agents/soft_actor_critic.py b/chainerrl/agents/soft_actor_critic.py
index b1258f2..bc40c20 100644
--- a/chainerrl/agents/soft_actor_critic.py
+++ b/chainerrl/agents/soft_actor_critic.py
@@ -282,7 +282,9 @@ class SoftActorCritic(AttributeSavingMixin, BatchAgent):
     def update(self, experiences, errors_out=None):
         """Update the model from experiences"""
 
-        batch = batch_experiences(experiences, self.xp, self.phi, self.gamma)
+        batch = batch_experiences(
+            experiences, self.xp, self.phi, self.gamma,
+            batch_states=self.batch_states)
         self.update_q_func(batch)
         self.update_policy_and_temperature(batch)
         self.sync_target_network()
diff --git a/chainerrl/agents/td3.py b/chainerrl/agents/td3.py
index cb9b6eb..f9f544f 100644
--- a/chainerrl/agents/td3.py
+++ b/chainerrl/agents/td3.py
@@ -229,7 +229,9 @@ class TD3(AttributeSavingMixin, BatchAgent):
     def update(self, experiences, errors_out=None):
         """Update the model from experiences"""
 
-        batch = batch_experiences(experiences, self.xp, self.phi, self.gamma)
+        batch = batch_experiences(
+            experiences, self.xp, self.phi, self.gamma,
+            batch_states=self.batch_states)
         self.update_q_func(batch)
         if self.q_func1_optimizer.t % self.policy_update_delay == 0:
             self.update_policy(batch)
-- 
2.43.0


From f66ce7be0387f686969a94a83ae8adc577a514e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:45 +0000
Subject: [PATCH 22/40] fix: LinearDecayEpsilonGreedy with decay_steps=0 no
 longer divides by zero at the first step

---
 chainerrl/explorers/epsilon_greedy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainerrl/explorers/epsilon_greedy.py b/chainerrl/explorers/epsilon_greedy.py
index 98bbdbb..9e71c78 100644
--- a/chainerrl/explorers/epsilon_greedy.py
+++ b/chainerrl/explorers/epsilon_greedy.py
@@ -64,7 +64,7 @@ class LinearDecayEpsilonGreedy(explorer.Explorer):
         self.epsilon = start_epsilon
 
     def compute_epsilon(self, t):
-        if t > self.decay_steps:
+        if t >= self.decay_steps:
             return self.end_epsilon
         else:
             epsilon_diff = self.end_epsilon - self.start_epsilon
-- 
2.43.0


From 2daf7245854d324710c48187da348d5ab4cf8acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:45 +0000
Subject: [PATCH 23/40] fix: evaluate_actions_as_distribution accepts Variables
 as documented

---
 chainerrl/action_value.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chainerrl/action_value.py b/chainerrl/action_value.py
index 2e6a6b2..c705875 100644
--- a/chainerrl/action_value.py
+++ b/chainerrl/action_value.py
@@ -153,6 +153,8 @@ class DistributionalDiscreteActionValue(ActionValue):
             chainer.Variable: Return distributions. Its shape will be
                 (batch_size, n_atoms).
         """
+        if isinstance(actions, chainer.Variable):
+            actions = actions.array
         return self.q_dist[self.xp.arange(self.q_values.shape[0]), actions]
 
     def compute_advantage(self, actions):
-- 
2.43.0


From 40f8b3672957d3558575b24fb66809ad58547a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:45 +0000
Subject: [PATCH 24/40] fix: EmpiricalNormalization with clip_threshold accepts
 Variables

---
 chainerrl/links/empirical_normalization.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/chainerrl/links/empirical_normalization.py b/chainerrl/links/empirical_normalization.py
index 789c651..7fa12ad 100644
--- a/chainerrl/links/empirical_normalization.py
+++ b/chainerrl/links/empirical_normalization.py
@@ -1,4 +1,5 @@
 import chainer
+from chainer import functions as F
 import numpy as np
 
 
@@ -98,8 +99,12 @@ class EmpiricalNormalization(chainer.Link):
 
         normalized = (x - mean) * std_inv
         if self.clip_threshold is not None:
-            normalized = xp.clip(
-                normalized, -self.clip_threshold, self.clip_threshold)
+            if isinstance(normalized, chainer.Variable):
+                normalized = F.clip(
+                    normalized, -self.clip_threshold, self.clip_threshold)
+            else:
+                normalized = xp.clip(
+                    normalized, -self.clip_threshold, self.clip_threshold)
         return normalized
 
     def inverse(self, y):
-- 
2.43.0


From 88ce77ee1fa9b046cda91b564c41a04e99d06f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:45 +0000
Subject: [PATCH 25/40] fix: EmpiricalNormalization normalizes by a mean and a
 deviation of the same samples

---
 chainerrl/links/empirical_normalization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/chainerrl/links/empirical_normalization.py b/chainerrl/links/empirical_normalization.py
index 7fa12ad..5215722 100644
--- a/chainerrl/links/empirical_normalization.py
+++ b/chainerrl/links/empirical_normalization.py
@@ -94,10 +94,12 @@ class EmpiricalNormalization(chainer.Link):
         mean = xp.broadcast_to(self._mean, x.shape)
         std_inv = xp.broadcast_to(self._std_inverse, x.shape)
 
+        # Normalize before learning x: `mean` is a view that is updated in place
+        normalized = (x - mean) * std_inv
+
         if update:
             self.experience(x)
 
-        normalized = (x - mean) * std_inv
         if self.clip_threshold is not None:
             if isinstance(normalized, chainer.Variable):
                 normalized = F.clip(
-- 
2.43.0


From 65240ac5bb48f123b3e2175937bbeb811878d35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:45 +0000
Subject: [PATCH 26/40] fix: EmpiricalNormalization learns from integer inputs,
 whose rate was truncated to zero

---
 chainerrl/links/empirical_normalization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainerrl/links/empirical_normalization.py b/chainerrl/links/empirical_normalization.py
index 5215722..e10d166 100644
--- a/chainerrl/links/empirical_normalization.py
+++ b/chainerrl/links/empirical_normalization.py
@@ -65,7 +65,7 @@ class EmpiricalNormalization(chainer.Link):
         xp = self.xp
 
         self.count += count_x
-        rate = x.dtype.type(count_x / self.count)
+        rate = self._mean.dtype.type(count_x / self.count)
 
         mean_x = xp.mean(x, axis=self.batch_axis, keepdims=True)
         var_x = xp.var(x, axis=self.batch_axis, keepdims=True)
-- 
2.43.0


From 099c2c4acc26676821580b0b60344eed0640e5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:45 +0000
Subject: [PATCH 27/40] fix: EmpiricalNormalization no longer uses a stale
 deviation after statistics are loaded or copied

---
 chainerrl/links/empirical_normalization.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/chainerrl/links/empirical_normalization.py b/chainerrl/links/empirical_normalization.py
index e10d166..80785d7 100644
--- a/chainerrl/links/empirical_normalization.py
+++ b/chainerrl/links/empirical_normalization.py
@@ -30,9 +30,6 @@ class EmpiricalNormalization(chainer.Link):
         self.register_persistent('_var')
         self.register_persistent('count')
 
-        # cache
-        self._cached_std_inverse = None
-
     @property
     def mean(self):
         return self.xp.squeeze(self._mean, self.batch_axis).copy()
@@ -44,10 +41,8 @@ class EmpiricalNormalization(chainer.Link):
 
     @property
     def _std_inverse(self):
-        if self._cached_std_inverse is None:
-            self._cached_std_inverse = (self._var + self.eps) ** -0.5
-
-        return self._cached_std_inverse
+        # Not cached: loading or copying persistent values changes _var
+        return (self._var + self.eps) ** -0.5
 
     def experience(self, x):
         """Learn input values without computing the output values of them"""
@@ -76,9 +71,6 @@ class EmpiricalNormalization(chainer.Link):
             + delta_mean * (mean_x - self._mean)
         )
 
-        # clear cache
-        self._cached_std_inverse = None
-
     def __call__(self, x, update=True):
         """Normalize mean and variance of values based on emprical values.
 
-- 
2.43.0


From 10adbd34781cfa7049a697f5eb0e6a673d4857af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:58 +0000
Subject: [PATCH 28/40] fix: optimizer states are shared in their own dtype
 instead of float32

---
 chainerrl/misc/async_.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chainerrl/misc/async_.py b/chainerrl/misc/async_.py
index 480e721..c134e5c 100644
--- a/chainerrl/misc/async_.py
+++ b/chainerrl/misc/async_.py
@@ -149,8 +149,8 @@ def extract_states_as_shared_arrays(optimizer):
         ensure_initialized_update_rule(param)
         state = param.update_rule.state
         for state_name, state_val in state.items():
-            shared_arrays[param_name][
-                state_name] = mp.RawArray('f', state_val.ravel())
+            shared_arrays[param_name][state_name] = mp.RawArray(
+                state_val.dtype.char, state_val.ravel())
     return shared_arrays
 
 
-- 
2.43.0


From 082655161af3a0d261d6fe12d15da64fdb3b5eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:57 +0000
Subject: [PATCH 29/40] fix: evaluate with chainer.config.train off in A2C,
 A3C, ACER, NSQ, PCL and REINFORCE

---
 chainerrl/agents/a2c.py       | 4 ++--
 chainerrl/agents/a3c.py       | 2 +-
 chainerrl/agents/acer.py      | 2 +-
 chainerrl/agents/nsq.py       | 9 +++++----
 chainerrl/agents/pcl.py       | 2 +-
 chainerrl/agents/reinforce.py | 2 +-
 6 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/chainerrl/agents/a2c.py b/chainerrl/agents/a2c.py
index f0f99a3..b1facba 100644
--- a/chainerrl/agents/a2c.py
+++ b/chainerrl/agents/a2c.py
@@ -245,7 +245,7 @@ class A2C(agent.AttributeSavingMixin, agent.BatchAgent):
 
     def batch_act(self, batch_obs):
         statevar = self.batch_states(batch_obs, self.xp, self.phi)
-        with chainer.no_backprop_mode():
+        with chainer.using_config('train', False), chainer.no_backprop_mode():
             pout, _ = self.model.pi_and_v(statevar)
             action = pout.sample().array
         return chainer.cuda.to_cpu(action)
@@ -278,7 +278,7 @@ class A2C(agent.AttributeSavingMixin, agent.BatchAgent):
         raise RuntimeError('A2C does not support non-batch training')
 
     def act(self, obs):
-        with chainer.no_backprop_mode():
+        with chainer.using_config('train', False), chainer.no_backprop_mode():
             statevar = self.batch_states([obs], self.xp, self.phi)
             pout, _ = self.model.pi_and_v(statevar)
             if self.act_deterministically:
diff --git a/chainerrl/agents/a3c.py b/chainerrl/agents/a3c.py
index 7385c07..dcb49a7 100644
--- a/chainerrl/agents/a3c.py
+++ b/chainerrl/agents/a3c.py
@@ -268,7 +268,7 @@ class A3C(agent.AttributeSavingMixin, agent.AsyncAgent):
 
     def act(self, obs):
         # Use the process-local model for acting
-        with chainer.no_backprop_mode():
+        with chainer.using_config('train', False), chainer.no_backprop_mode():
             statevar = self.batch_states([obs], np, self.phi)
             pout, _ = self.model.pi_and_v(statevar)
             if self.act_deterministically:
diff --git a/chainerrl/agents/acer.py b/chainerrl/agents/acer.py
index 9256c3f..e25819b 100644
--- a/chainerrl/agents/acer.py
+++ b/chainerrl/agents/acer.py
@@ -650,7 +650,7 @@ class ACER(agent.AttributeSavingMixin, agent.AsyncAgent):
 
     def act(self, obs):
         # Use the process-local model for acting
-        with chainer.no_backprop_mode():
+        with chainer.using_config('train', False), chainer.no_backprop_mode():
             statevar = np.expand_dims(self.phi(obs), 0)
             action_distrib, _, _ = self.model(statevar)
             if self.act_deterministically:
diff --git a/chainerrl/agents/nsq.py b/chainerrl/agents/nsq.py
index 7455244..3021e8a 100644
--- a/chainerrl/agents/nsq.py
+++ b/chainerrl/agents/nsq.py
@@ -157,10 +157,11 @@ class NSQ(AttributeSavingMixin, AsyncAgent):
         return action
 
     def act(self, obs):
-        statevar = self.batch_states([obs], np, self.phi)
-        qout = self.q_function(statevar)
-        self.logger.debug('act action_value: %s', qout)
-        return qout.greedy_actions.array[0]
+        with chainer.using_config('train', False), chainer.no_backprop_mode():
+            statevar = self.batch_states([obs], np, self.phi)
+            qout = self.q_function(statevar)
+            self.logger.debug('act action_value: %s', qout)
+            return qout.greedy_actions.array[0]
 
     def stop_episode_and_train(self, state, reward, done=False):
         self.past_rewards[self.t - 1] = reward
diff --git a/chainerrl/agents/pcl.py b/chainerrl/agents/pcl.py
index a5aef17..8e02de2 100644
--- a/chainerrl/agents/pcl.py
+++ b/chainerrl/agents/pcl.py
@@ -430,7 +430,7 @@ class PCL(agent.AttributeSavingMixin, agent.AsyncAgent):
 
     def act(self, obs):
         # Use the process-local model for acting
-        with chainer.no_backprop_mode():
+        with chainer.using_config('train', False), chainer.no_backprop_mode():
             statevar = self.batch_states([obs], self.xp, self.phi)
             action_distrib, _ = self.model(statevar)
             if self.act_deterministically:
diff --git a/chainerrl/agents/reinforce.py b/chainerrl/agents/reinforce.py
index 8ca38c4..9fcc14c 100644
--- a/chainerrl/agents/reinforce.py
+++ b/chainerrl/agents/reinforce.py
@@ -93,7 +93,7 @@ class REINFORCE(agent.AttributeSavingMixin, agent.Agent):
         return action
 
     def act(self, obs):
-        with chainer.no_backprop_mode():
+        with chainer.using_config('train', False), chainer.no_backprop_mode():
             batch_obs = self.batch_states([obs], self.xp, self.phi)
             action_distrib = self.model(batch_obs)
             if self.act_deterministically:
-- 
2.43.0


From 58d164d1c5ea917a6dbab8dbdfcf1ecb466e15b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:28 +0000
Subject: [PATCH 30/40] fix: make optimizers loaded from a snapshot saved
 before the first update usable

---
 chainerrl/agent.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/chainerrl/agent.py b/chainerrl/agent.py
index 9f96915..9655ced 100644
--- a/chainerrl/agent.py
+++ b/chainerrl/agent.py
@@ -3,16 +3,26 @@ from abc import abstractmethod
 from abc import abstractproperty
 import os
 
+from chainer import Optimizer
 from chainer import serializers
 import numpy
 import warnings
 
 
 def load_npz_no_strict(filename, obj):
+    unused_rules = []
+    if isinstance(obj, Optimizer):
+        unused_rules = [p.update_rule for p in obj.target.params()
+                        if p.update_rule is not None
+                        and p.update_rule.state is None]
     try:
         serializers.load_npz(filename, obj)
     except KeyError as e:
         warnings.warn(repr(e))
+        # The failed attempt leaves states of wrong shapes in update rules
+        # that had no state.
+        for rule in unused_rules:
+            rule._state = None
         with numpy.load(filename) as f:
             d = serializers.NpzDeserializer(f, strict=False)
             d.load(obj)
-- 
2.43.0


From 2bcc6f6566bb56c7d61d7f57287f42257ea80370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:07 +0000
Subject: [PATCH 31/40] fix: save and load the average model of ACER

---
 chainerrl/agents/acer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainerrl/agents/acer.py b/chainerrl/agents/acer.py
index e25819b..a686b57 100644
--- a/chainerrl/agents/acer.py
+++ b/chainerrl/agents/acer.py
@@ -270,7 +270,7 @@ class ACER(agent.AttributeSavingMixin, agent.AsyncAgent):
     """
 
     process_idx = None
-    saved_attributes = ['model', 'optimizer']
+    saved_attributes = ['model', 'shared_average_model', 'optimizer']
 
     def __init__(self, model, optimizer, t_max, gamma, replay_buffer,
                  beta=1e-2,
-- 
2.43.0


From accadcf5282244ab80134b68c3b13f27581da519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:05 +0000
Subject: [PATCH 32/40] fix: give the processes of run_async different random
 seeds

---
 chainerrl/misc/async_.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/chainerrl/misc/async_.py b/chainerrl/misc/async_.py
index c134e5c..815ed8c 100644
--- a/chainerrl/misc/async_.py
+++ b/chainerrl/misc/async_.py
@@ -170,13 +170,16 @@ def run_async(n_process, run_func):
 
     processes = []
 
-    def set_seed_and_run(process_idx, run_func):
-        random_seed.set_random_seed(np.random.randint(0, 2 ** 32))
+    def set_seed_and_run(process_idx, seed, run_func):
+        random_seed.set_random_seed(seed)
         run_func(process_idx)
 
     for process_idx in range(n_process):
+        # Forked processes inherit the same random state, so their seeds must
+        # be drawn here
+        seed = np.random.randint(0, 2 ** 32)
         processes.append(mp.Process(target=set_seed_and_run, args=(
-            process_idx, run_func)))
+            process_idx, seed, run_func)))
 
     for p in processes:
         p.start()
-- 
2.43.0


From 1b009bd8cdd26fa4f993a51c67869fbb3fff300d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:05 +0000
Subject: [PATCH 33/40] fix: A2C.batch_act respects act_deterministically

---
 chainerrl/agents/a2c.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/chainerrl/agents/a2c.py b/chainerrl/agents/a2c.py
index b1facba..88629db 100644
--- a/chainerrl/agents/a2c.py
+++ b/chainerrl/agents/a2c.py
@@ -247,7 +247,10 @@ class A2C(agent.AttributeSavingMixin, agent.BatchAgent):
         statevar = self.batch_states(batch_obs, self.xp, self.phi)
         with chainer.using_config('train', False), chainer.no_backprop_mode():
             pout, _ = self.model.pi_and_v(statevar)
-            action = pout.sample().array
+            if self.act_deterministically:
+                action = pout.most_probable.array
+            else:
+                action = pout.sample().array
         return chainer.cuda.to_cpu(action)
 
     def batch_observe_and_train(self, batch_obs, batch_reward, batch_done,
-- 
2.43.0


From 8ae958da8521019b347e8a4680d13bc82d27ede5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:05 +0000
Subject: [PATCH 34/40] fix: MellowmaxDistribution uses its omega

---
 chainerrl/distribution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/chainerrl/distribution.py b/chainerrl/distribution.py
index 529c79f..4e24ac9 100644
--- a/chainerrl/distribution.py
+++ b/chainerrl/distribution.py
@@ -238,7 +238,8 @@ class MellowmaxDistribution(CategoricalDistribution):
     @cached_property
     def all_prob(self):
         with chainer.force_backprop_mode():
-            return mellowmax.maximum_entropy_mellowmax(self.values)
+            return mellowmax.maximum_entropy_mellowmax(
+                self.values, omega=self.omega)
 
     @cached_property
     def all_log_prob(self):
-- 
2.43.0


From 7c1b7317b56ad44db7a86a923a467d580e15faed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:25 +0000
Subject: [PATCH 35/40] fix: PCL works without a replay buffer, as its default
 argument says

---
 chainerrl/agents/pcl.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/chainerrl/agents/pcl.py b/chainerrl/agents/pcl.py
index 8e02de2..412d0cb 100644
--- a/chainerrl/agents/pcl.py
+++ b/chainerrl/agents/pcl.py
@@ -408,7 +408,7 @@ class PCL(agent.AttributeSavingMixin, agent.AsyncAgent):
             (1 - self.average_entropy_decay) *
             (float(action_distrib.entropy.array[0]) - self.average_entropy))
 
-        if self.last_state is not None:
+        if self.replay_buffer is not None and self.last_state is not None:
             assert self.last_action is not None
             assert self.last_action_distrib is not None
             # Add a transition to the replay buffer
@@ -456,16 +456,17 @@ class PCL(agent.AttributeSavingMixin, agent.AsyncAgent):
         if isinstance(self.model, Recurrent):
             self.model.reset_state()
 
-        # Add a transition to the replay buffer
-        self.replay_buffer.append(
-            state=self.last_state,
-            action=self.last_action,
-            reward=reward,
-            next_state=state,
-            next_action=self.last_action,
-            is_state_terminal=done,
-            mu=self.last_action_distrib)
-        self.replay_buffer.stop_current_episode()
+        if self.replay_buffer is not None:
+            # Add a transition to the replay buffer
+            self.replay_buffer.append(
+                state=self.last_state,
+                action=self.last_action,
+                reward=reward,
+                next_state=state,
+                next_action=self.last_action,
+                is_state_terminal=done,
+                mu=self.last_action_distrib)
+            self.replay_buffer.stop_current_episode()
 
         self.last_state = None
         self.last_action = None
-- 
2.43.0


From cf53e20dd623ed706926acf89e10b83d4ceaaa1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:59 +0000
Subject: [PATCH 36/40] fix: the end of a training episode no longer resets the
 evaluation state of recurrent PPO and TRPO

---
 chainerrl/agents/ppo.py  | 1 -
 chainerrl/agents/trpo.py | 1 -
 2 files changed, 2 deletions(-)

diff --git a/chainerrl/agents/ppo.py b/chainerrl/agents/ppo.py
index 1d07892..0e083c9 100644
--- a/chainerrl/agents/ppo.py
+++ b/chainerrl/agents/ppo.py
@@ -684,7 +684,6 @@ class PPO(agent.AttributeSavingMixin, agent.BatchAgent):
         self.last_action = None
 
         self._flush_last_episode()
-        self.stop_episode()
 
         self._update_if_dataset_is_ready()
 
diff --git a/chainerrl/agents/trpo.py b/chainerrl/agents/trpo.py
index ea96f06..7728e4d 100644
--- a/chainerrl/agents/trpo.py
+++ b/chainerrl/agents/trpo.py
@@ -743,7 +743,6 @@ Line search coundn't find a good step size. The policy was not updated.")
         self.last_action = None
 
         self._flush_last_episode()
-        self.stop_episode()
 
         self._update_if_dataset_is_ready()
 
-- 
2.43.0


From 5b0c318ea6903d101ee433b00ce724fecc22c8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:28 +0000
Subject: [PATCH 37/40] fix: weight each replayed episode in PCL by its own
 importance weight

Episodes were sorted by length but their weights were not.
---
 chainerrl/agents/pcl.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/chainerrl/agents/pcl.py b/chainerrl/agents/pcl.py
index 412d0cb..e8d07b2 100644
--- a/chainerrl/agents/pcl.py
+++ b/chainerrl/agents/pcl.py
@@ -279,7 +279,11 @@ class PCL(agent.AttributeSavingMixin, agent.AsyncAgent):
             episodes, weights = episodes
         else:
             weights = [1] * len(episodes)
-        sorted_episodes = list(reversed(sorted(episodes, key=len)))
+        # Sort episodes together with their weights
+        order = list(reversed(sorted(
+            range(len(episodes)), key=lambda i: len(episodes[i]))))
+        sorted_episodes = [episodes[i] for i in order]
+        weights = [weights[i] for i in order]
         max_epi_len = len(sorted_episodes[0])
 
         with state_reset(self.model):
-- 
2.43.0


From 7ef51811b520757a2be29565b12d901686c0353f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:15 +0000
Subject: [PATCH 38/40] fix: maximum_entropy_mellowmax uses its omega

---
 chainerrl/functions/mellowmax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainerrl/functions/mellowmax.py b/chainerrl/functions/mellowmax.py
index c73bec4..a069ac4 100644
--- a/chainerrl/functions/mellowmax.py
+++ b/chainerrl/functions/mellowmax.py
@@ -47,7 +47,7 @@ def maximum_entropy_mellowmax(values, omega=1., beta_min=-10, beta_max=10):
         outputs (Variable)
     """
     xp = chainer.cuda.get_array_module(values)
-    mm = mellowmax(values, axis=1)
+    mm = mellowmax(values, omega=omega, axis=1)
 
     # Advantage: Q - mellowmax(Q)
     batch_adv = values - F.broadcast_to(F.expand_dims(mm, 1), values.shape)
-- 
2.43.0


From d3b657ad434ea900c8d3e7f9e354733e7c744a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:05 +0000
Subject: [PATCH 39/40] fix: conjugate_gradient returns zero instead of nan for
 b = 0

---
 chainerrl/misc/conjugate_gradient.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/chainerrl/misc/conjugate_gradient.py b/chainerrl/misc/conjugate_gradient.py
index 994413f..d7ece3f 100644
--- a/chainerrl/misc/conjugate_gradient.py
+++ b/chainerrl/misc/conjugate_gradient.py
@@ -21,6 +21,8 @@ def conjugate_gradient(A_product_func, b, tol=1e-10, max_iter=10):
     xp = chainer.cuda.get_array_module(b)
     x = xp.zeros_like(b)
     r0 = b - A_product_func(x)
+    if xp.linalg.norm(r0) < tol:
+        return x
     p = r0
     for _ in range(max_iter):
         a = xp.dot(r0, r0) / xp.dot(A_product_func(p), p)
-- 
2.43.0


From 187bb9916378bede6c77145887c7f29f825844b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:44 +0000
Subject: [PATCH 40/40] fix: NormalizedRewardFilter uses eps as a lower bound
 of the variance

---
 chainerrl/misc/reward_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/chainerrl/misc/reward_filter.py b/chainerrl/misc/reward_filter.py
index 608ee16..b2e3213 100644
--- a/chainerrl/misc/reward_filter.py
+++ b/chainerrl/misc/reward_filter.py
@@ -14,7 +14,7 @@ class NormalizedRewardFilter(object):
         self.average_reward_squared *= 1 - self.tau
         self.average_reward_squared += self.tau * reward ** 2
         var = self.average_reward_squared - self.average_reward ** 2
-        stdev = min(var, self.eps) ** 0.5
+        stdev = max(var, self.eps) ** 0.5
         return self.scale * (reward - self.average_reward) / stdev
 
 
-- 
2.43.0

