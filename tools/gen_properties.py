"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=['chainerrl/' + f for f in files],
        mechanism=[dict(name=m, where='chainerrl/' + w) for m, w in mech],
        observe_at=observe, hook_needed=None)))

p('P01', 'Replay windows: every transition starts exactly one in-episode window',
  'For every sequence of append / stop_current_episode calls interleaved over any env ids, an unbounded replay buffer with num_steps=n holds, for each transition appended whose window is complete, exactly one window starting at it. '
  'That window is the run of consecutive transitions of the same env and the same episode, of length n unless the episode ended first, in which case it is the (shorter) rest of the episode. '
  'Windows never mix envs or cross an episode boundary, whether the episode ended by a terminal transition or by stop_current_episode, and a non-terminal episode in progress contributes exactly its complete windows. ',
  ['histories', 'inputs', 'configurations'],
  'all interleavings of append(terminal or not)/stop over env ids, all num_steps >= 1, both uniform and prioritized n-step buffers',
  'The existing tests run a few fixed append sequences with one or two env ids; the number of interleavings of envs, episode ends and n is unbounded.',
  ['replay_buffers/replay_buffer.py', 'replay_buffers/prioritized.py'],
  [('n-step deque per env id, flushed at terminal/stop', 'replay_buffers/replay_buffer.py:ReplayBuffer.append/stop_current_episode')],
  ['return values of sample(len(buffer))', 'len(buffer)'])
p('P02', 'Bounded buffers keep exactly the newest entries, evicting oldest first',
  'A replay buffer or random-access queue created with capacity c never reports or holds more than c entries after any operation, and what it holds is always the newest entries in insertion order: only the oldest entries are dropped, and only to make room. '
  'Indexing, negative indexing, assignment, iteration, extend, append and popleft on the queue agree with an ordinary bounded FIFO list at every point of every call sequence.',
  ['histories', 'inputs', 'configurations'],
  'all sequences of queue operations and all capacities including 0, 1 and None, for RandomAccessQueue, ReplayBuffer and PrioritizedReplayBuffer',
  'Tests exercise short fixed sequences; the two-stack representation makes the behaviour depend on the whole history of pops and appends.',
  ['misc/collections.py', 'replay_buffers/replay_buffer.py', 'misc/prioritized.py'],
  [('two-list queue with maxlen', 'misc/collections.py:RandomAccessQueue'), ('popleft before append at capacity', 'misc/prioritized.py:PrioritizedBuffer.append')],
  ['queue contents via iteration and indexing', 'sample(len(buffer))'])
p('P03', 'Episodic buffers hold whole finished episodes and evict whole episodes',
  'For every history, an episodic replay buffer exposes exactly the transitions of finished or explicitly stopped episodes, each episode being the consecutive transitions of one env in order; episodes in progress are invisible. '
  'With a capacity, whole oldest episodes are discarded exactly while the number of stored transitions exceeds the capacity, so the transition view and the episode view always describe the same episodes. '
  'sample_episodes returns distinct stored episodes or, with max_len, contiguous sub-sequences of distinct episodes of length min(max_len, episode length).',
  ['histories', 'inputs', 'configurations'],
  'all interleavings of append/stop over env ids, all capacities and max_len values, for the uniform and prioritized episodic buffers',
  'Tests use a single env and a handful of episodes; eviction of an episode that spans several capacities and multi-env interleavings are not enumerated.',
  ['replay_buffers/episodic.py', 'replay_buffers/prioritized_episodic.py', 'replay_buffer.py'],
  [('whole-episode eviction loop', 'replay_buffers/episodic.py:EpisodicReplayBuffer.stop_current_episode'), ('random_subseq', 'replay_buffer.py:random_subseq')],
  ['len, n_episodes, sample, sample_episodes'])
p('P04', 'Uniform sampling is without replacement and uniform over all stored items',
  'sample(n) on a uniform replay buffer or random-access queue, and sample_episodes on the episodic buffer, return n items stored at n different positions, for every n from 0 to the current size, and fail rather than repeat an item when n exceeds it. '
  'Every stored item is equally likely to be returned whatever the size of the buffer, the value of n, and the history that produced the contents; sub-episodes start uniformly at every feasible offset.',
  ['histories', 'inputs', 'configurations'],
  'all buffer sizes, all n, all histories; distribution decided statistically with a false-alarm probability below 1e-9 per comparison',
  'Tests check membership and uniqueness for a few n; uniformity and the switch of sampling algorithm on the ratio n/size are not covered for every ratio.',
  ['misc/random.py', 'misc/collections.py', 'replay_buffer.py'],
  [('rejection sampling / choice without replacement', 'misc/random.py:sample_n_k'), ('random_subseq', 'replay_buffer.py:random_subseq')],
  ['sample, sample_episodes results'])
p('P05', 'Prioritized sampling follows current priorities; updates hit what was sampled',
  'In a prioritized buffer every draw selects an item with probability proportional to its current priority among items not yet drawn in that call (mixed with the configured uniform ratio), the items of one sample are distinct, and reported probabilities equal priority / total priority at the time of the call. '
  'A new item enters with the given priority or with the largest priority ever set, an update assigns each new priority to exactly the item sampled at that position and to no other, and evicting or appending items between samples never shifts a priority to another item. '
  'Sampling twice without an update, or updating without a sample, is rejected when the buffer is configured to wait for priorities.',
  ['histories', 'inputs', 'configurations'],
  'all sequences of append/popleft-by-capacity/sample/set-priority, all capacities and sizes (tree shapes), positive dyadic priorities',
  'Tests check one or two sizes statistically; the tree is re-rooted by the history of appends and pops, so correctness must hold for every history.',
  ['misc/prioritized.py', 'replay_buffers/prioritized.py', 'replay_buffers/prioritized_episodic.py'],
  [('sum tree / min tree queue', 'misc/prioritized.py:TreeQueue'), ('sampled index memory', 'misc/prioritized.py:PrioritizedBuffer.set_last_priority')],
  ['sampled items, returned probabilities', 'sampling frequencies'])
p('P06', 'Importance weights equal (p/p_ref)^-beta and beta anneals to exactly 1',
  'Each prioritized sample carries weights w_i = (p_i / p_ref)^(-beta) where p_ref is the smallest probability in the batch or in the whole memory as configured, so weights are in (0, 1] and the reference item has weight 1. '
  'beta starts at beta0, grows by (1-beta0)/betasteps per sample, never exceeds 1 and stays at beta0 when betasteps is None. '
  'Errors are turned into priorities as (clip(error, error_min, error_max) + eps)^alpha before being assigned.',
  ['histories', 'inputs', 'configurations'],
  'all priority vectors, both normalizations, all beta schedules and error bounds',
  'Tests check only that weights exist and a single schedule; the interaction of normalization, annealing, clipping and history is not enumerated.',
  ['replay_buffers/prioritized.py', 'misc/prioritized.py', 'replay_buffers/prioritized_episodic.py'],
  [('PriorityWeightError', 'replay_buffers/prioritized.py:PriorityWeightError')],
  ['weight entries of sampled transitions / returned weights'])
p('P07', 'Saving and loading a replay buffer preserves its contents and later behaviour',
  'For every history, save followed by load into a freshly constructed buffer of the same configuration yields a buffer with the same length, the same stored windows or episodes, the same priorities and the same capacity, and any further sequence of operations then evolves the stored contents exactly as in the original. '
  'Saving does not change the saved buffer; transitions of an episode or n-step window still in progress are not part of what is saved.',
  ['histories', 'crash_points', 'configurations'],
  'every prefix of every operation history as save point, all four buffer classes, all capacities',
  'Tests save and load once from one short history and compare only lengths/contents, not the behaviour afterwards (eviction order, priorities).',
  ['replay_buffers/replay_buffer.py', 'replay_buffers/episodic.py', 'replay_buffers/prioritized.py', 'misc/collections.py', 'misc/prioritized.py'],
  [('pickle of memory', 'replay_buffers/replay_buffer.py:ReplayBuffer.save/load')],
  ['contents before/after load and after further appends'])
p('P08', 'Batched experiences carry the n-step return, discount and terminal flag',
  'For every list of stored windows of any lengths, batching them yields per window the first state and action, the last next state, the reward sum_i gamma^i r_i over the window, the discount gamma^length, and a terminal flag that is set iff some transition of the window is terminal. '
  'The result for one window does not depend on the other windows in the batch, and next actions are batched exactly when all windows carry one.',
  ['inputs', 'configurations'],
  'all mixtures of window lengths, rewards, terminal flags and gamma, including gamma 0 and 1',
  'Tests cover two hand-written windows; mixed lengths with terminals in one batch are not enumerated.',
  ['replay_buffer.py'],
  [('batch_experiences', 'replay_buffer.py:batch_experiences')],
  ['returned batch dict'])
p('P09', 'Off-policy updates run exactly on schedule and only with enough data',
  'A replay-based agent performs n_times_update model updates at a training step iff that step is a multiple of update_interval and the buffer holds at least replay_start_size transitions (and, for episodic updates, at least a minibatch of episodes); otherwise the model is left untouched. '
  'Each update uses exactly minibatch_size distinct stored items, and acting in evaluation mode never triggers an update.',
  ['histories', 'configurations'],
  'all step counts, intervals, start sizes, batch sizes and buffer fill histories, single-env and batch mode',
  'Tests check the updater with one or two settings; the schedule is a function of the whole history and of five parameters.',
  ['replay_buffer.py', 'agents/dqn.py', 'agents/ddpg.py', 'agents/soft_actor_critic.py', 'agents/td3.py'],
  [('ReplayUpdater.update_if_necessary', 'replay_buffer.py:ReplayUpdater')],
  ['update callback calls', 'n_updates statistic'])
p('P10', 'Serial training loop: exact steps, correct rewards, resets and hooks',
  'train_agent feeds the agent, at every step, the observation the env last produced and the reward of the previous action (0 at an episode start), takes exactly steps - step_offset env steps unless stopped early, and calls every hook once per step, in order, with consecutive step numbers. '
  'An episode is ended (the agent told once, with done equal to the env\'s done, never with done for a mere time limit) exactly when the env reports done or needs_reset, max_episode_len is reached, or training ends, and the env is reset exactly once between two episodes and never stepped after an end without a reset. '
  'Checkpoints are written at positive multiples of checkpoint_freq before the last step, and the final agent is saved exactly once under <t>_finish.',
  ['histories', 'configurations', 'inputs'],
  'all env behaviours (done/needs_reset at any step), all combinations of steps, step_offset, max_episode_len, checkpoint_freq and evaluator outcomes',
  'Tests run a few fixed-length dummy episodes and count calls; coincidences of events at the same step are not enumerated.',
  ['experiments/train_agent.py'],
  [('train_agent loop', 'experiments/train_agent.py:train_agent')],
  ['calls on agent, env, hooks; saved directories'])
p('P11', 'Batch training loop: per-env episodes, selective resets, exact step count',
  'train_agent_batch passes all envs\' latest observations to the agent, reports every step\'s rewards, dones and resets to it in env order with reset set exactly for envs that reached max_episode_len or needs_reset, and then resets exactly the envs that ended, leaving the others\' episodes and observations untouched. '
  'The global step counter advances by one per env per batch step, hooks fire once for each value in order, checkpoints at every multiple of checkpoint_freq, training stops at the first batch step at which the counter reaches steps, and the final agent is saved exactly once.',
  ['histories', 'configurations', 'inputs'],
  'all per-env done/needs_reset patterns, all numbers of envs, steps, offsets, episode limits, checkpoint frequencies and evaluator outcomes',
  'Tests use synchronous dummy envs; the independent per-env episode boundaries multiply into unboundedly many histories.',
  ['experiments/train_agent_batch.py'],
  [('train_agent_batch loop', 'experiments/train_agent_batch.py:train_agent_batch')],
  ['calls on agent, vector env, hooks; saved directories'])
p('P12', 'Async training: global steps counted once each, one final save, all stop',
  'Under every interleaving of the worker processes, train_agent_async gives each env step of each worker a distinct global step number with no gaps, calls each hook exactly once per global step with that number, and every worker stops after at most the step during which training was over. '
  'Exactly one worker saves the final agent when the requested number of steps is reached and none does if training stopped earlier by success, in which case exactly one worker saves the successful agent. '
  'Each worker sees its own env only: rewards, resets and episode ends are reported to the agent as in serial training.',
  ['schedules', 'histories', 'configurations'],
  'all interleavings of up to several workers at the granularity of agent/env/hook/evaluator callbacks, plus stress runs at full speed',
  'Tests run one free schedule per configuration; races between the counter, the done flag and evaluation show only under particular interleavings.',
  ['experiments/train_agent_async.py', 'misc/async_.py'],
  [('shared counter under lock, training_done flag', 'experiments/train_agent_async.py:train_loop')],
  ['hooks, env and agent callbacks in the workers; saved directories'])
p('P13', 'A failing or interrupted training run leaves a checkpoint and re-raises',
  'Whatever exception or KeyboardInterrupt is raised by the agent, an env step, a hook or the evaluator at whatever step (the very first env reset excepted), the serial and batch training loops save the agent exactly once under <t>_except where t is the number of steps completed and counted, save no _finish agent, close what they promise to close, and propagate that same exception. '
  'A run that does not fail never writes an _except directory.',
  ['fault_sequences', 'crash_points', 'configurations'],
  'an exception of either kind injected at every callback of every step, including the very first and the last',
  'Tests inject at most one exception at a fixed place.',
  ['experiments/train_agent.py', 'experiments/train_agent_batch.py'],
  [('except clause saving the agent', 'experiments/train_agent.py:train_agent'), ('except clause saving and closing', 'experiments/train_agent_batch.py:train_agent_batch')],
  ['raised exception, saved directories, close calls'])
p('P14', 'Evaluations happen once per interval and best-so-far is the true maximum',
  'The evaluator evaluates at a call iff at least one evaluation interval boundary has been crossed since the last evaluation (counting boundaries from step_offset), at most once per call, and appends exactly one line to scores.txt per evaluation whose steps, episodes, mean, median, stdev, max and min are those of that evaluation\'s returns. '
  'The best score equals the maximum of the means so far, the agent is saved as best exactly when a mean strictly exceeds all previous ones, and training stops for success at the first evaluation whose mean reaches the successful score, and only then. '
  'With several asynchronous workers sharing an evaluator the same holds for the combined sequence of evaluations (each crossed boundary is used for one evaluation), and the header is written exactly once before any scores.',
  ['histories', 'schedules', 'configurations'],
  'all monotone sequences of call times and return values, offsets, intervals, and interleavings of workers',
  'Tests make a couple of calls with increasing scores; ties, skipped boundaries, offsets and concurrent workers are not enumerated.',
  ['experiments/evaluator.py', 'experiments/train_agent.py', 'experiments/train_agent_async.py'],
  [('prev_eval_t bookkeeping', 'experiments/evaluator.py:Evaluator.evaluate_if_necessary'), ('shared prev_eval_t and max score', 'experiments/evaluator.py:AsyncEvaluator')],
  ['scores.txt, best directory, return values'])
p('P15', 'Serial evaluation runs exactly the requested episodes or steps',
  'Evaluating for n episodes runs exactly n complete episodes, evaluating for n steps runs exactly n env steps and scores only complete episodes (or the single unfinished one if none completed), and each score is the sum of the rewards of its own episode. '
  'Episodes end at done, needs_reset or the maximum length; the env is reset exactly once before each episode; the agent is only asked to act for evaluation, is told that the episode stopped after each one and at the end, and is never trained.',
  ['histories', 'configurations', 'inputs'],
  'all env behaviours, all n_steps / n_episodes / max_episode_len',
  'Tests use fixed-length dummy episodes.',
  ['experiments/evaluator.py'],
  [('run_evaluation_episodes', 'experiments/evaluator.py:run_evaluation_episodes')],
  ['calls on agent and env; returned scores'])
p('P16', 'Batch evaluation scores the first-started episodes, without length bias',
  'Evaluating in a vector env for n episodes returns the returns of the first n episodes in starting order (not of the first n to finish); for n steps, of the first episodes in starting order that complete within n steps in total, or the first one truncated if none completes. '
  'Each return sums the rewards of exactly that episode in its own env whatever happens in other envs; at the last step the agent observes a reset in every env, and it is never trained.',
  ['histories', 'configurations', 'inputs'],
  'all per-env episode length patterns, numbers of envs, n_steps / n_episodes, max_episode_len, needs_reset',
  'Tests cover a few length patterns; the selection rule depends on the interleaving of episode ends across envs.',
  ['experiments/evaluator.py'],
  [('batch_run_evaluation_episodes', 'experiments/evaluator.py:batch_run_evaluation_episodes')],
  ['calls on agent and env; returned scores'])
p('P17', 'Collected demonstrations are exactly the transitions the agent experienced',
  'collect_demonstrations writes, in order, exactly one record per env step, holding the observation acted on, the action, the reward, the resulting observation, done and info, for exactly the requested number of steps or complete episodes. '
  'Episodes end exactly at done, needs_reset or max_episode_len; the first record of an episode holds the reset observation, and the agent is told when each episode stops.',
  ['histories', 'configurations', 'inputs'],
  'all env behaviours, all steps / episodes / max_episode_len',
  'Tests collect from one env with fixed-length episodes.',
  ['experiments/collect_demos.py'],
  [('collect_demonstrations loop', 'experiments/collect_demos.py:collect_demonstrations')],
  ['records in demos.pickle'])
p('P18', 'Vector envs behave as independent envs; serial and multiprocess agree',
  'For every sequence of step, masked reset and seed (one seed per env) calls, a vector env returns for each index exactly what that env alone would have returned under the same calls, in index order; masked-out envs are not reset and keep their last observation. '
  'The serial and the multiprocess implementations give identical results, closing the multiprocess env closes every env and ends every worker process, and using it after close is rejected.',
  ['histories', 'configurations', 'schedules'],
  'all sequences of step/reset(mask)/seed/close, all numbers of envs, envs with different speeds',
  'Tests run a few steps of identical envs and compare; mixed masks and histories are not enumerated.',
  ['envs/serial_vector_env.py', 'envs/multiprocess_vector_env.py', 'env.py'],
  [('pipe protocol per worker', 'envs/multiprocess_vector_env.py:MultiprocessVectorEnv'), ('last_obs for masked envs', 'envs/serial_vector_env.py:SerialVectorEnv.reset')],
  ['returned observations/rewards/dones/infos', 'worker processes'])
p('P19', 'Time limits request a reset without faking a terminal state',
  'ContinuingTimeLimit passes every observation, reward and done through unchanged and sets needs_reset exactly on the steps at or past the limit counted since the last reset; stepping before the first reset is rejected. '
  'The monitor records every episode exactly once, with its true length and total reward, whether it ended by done, was reset while still running, or was in progress when the monitor was closed.',
  ['histories', 'configurations'],
  'all sequences of steps and resets, all limits, env done at any point',
  'Tests check a single limit and a fixed sequence of episodes.',
  ['wrappers/continuing_time_limit.py', 'wrappers/monitor.py'],
  [('elapsed step counter', 'wrappers/continuing_time_limit.py'), ('_StatsRecorder', 'wrappers/monitor.py')],
  ['step results; recorded episode lengths and rewards'])
p('P20', 'Stacked frames are exactly the last k frames of the current episode',
  'After any sequence of resets and steps, a frame-stacking env (single or vector) returns the last k observations of the current episode of that env, oldest first, padded on the left with the reset observation; nothing from an earlier episode or another env ever appears. '
  'With a masked vector reset, envs that are not reset keep their stacks unchanged, and a previously returned stack never changes afterwards.',
  ['histories', 'configurations'],
  'all sequences of step/reset(mask), all k, numbers of envs, both stacking axes',
  'Tests check one short sequence.',
  ['wrappers/atari_wrappers.py', 'wrappers/vector_frame_stack.py'],
  [('FrameStack deque', 'wrappers/atari_wrappers.py:FrameStack'), ('VectorFrameStack', 'wrappers/vector_frame_stack.py')],
  ['returned observations'])
p('P21', 'Atari wrappers: life loss, no-op/fire starts and frame skip preserve the game',
  'With the episodic-life wrapper every life loss with lives remaining is reported as done without resetting the game, a real reset happens iff the underlying episode ended (done or needs_reset), and otherwise reset continues the same game. '
  'Frame skipping repeats the action up to the skip count, stops as soon as the env is done or needs a reset, sums exactly the rewards of the frames played, and returns the pixelwise max of the last two frames it played; every reset returns the current observation of an unfinished episode (a game that has not been stepped since its reset may be restarted), and reward clipping yields the sign of the reward.',
  ['histories', 'configurations', 'inputs'],
  'all emulator behaviours (life loss, bonus lives, done/needs_reset at any frame), all skip counts and no-op counts',
  'Tests only compare shapes/values on one ROM or a scripted env.',
  ['wrappers/atari_wrappers.py'],
  [('EpisodicLifeEnv', 'wrappers/atari_wrappers.py'), ('MaxAndSkipEnv', 'wrappers/atari_wrappers.py'), ('NoopResetEnv/FireResetEnv', 'wrappers/atari_wrappers.py')],
  ['calls reaching the underlying env; returned values'])
p('P22', 'Off-policy agents store exactly the transitions they experienced',
  'For every interleaving of training and evaluation calls, a replay-based agent (DQN family, DDPG, SAC, TD3) in single-env mode stores, for each training step, exactly one transition made of the observation it acted on, the action it returned, the reward and observation reported next, with the terminal flag set iff the episode was reported done. '
  'No transition connects two episodes, an episode ended without done is stored as non-terminal and does not leak into the next, and between-episode evaluation adds nothing.',
  ['histories', 'configurations', 'inputs'],
  'all sequences of act_and_train / stop_episode_and_train(done or not) with evaluation episodes in between, all n-step settings',
  'Tests train on one toy env and check performance only.',
  ['agents/dqn.py', 'agents/ddpg.py', 'agents/soft_actor_critic.py', 'agents/td3.py'],
  [('last_state/last_action bookkeeping', 'agents/dqn.py:act_and_train/stop_episode_and_train')],
  ['replay buffer contents after each call'])
p('P23', 'Batch-mode agents keep the transitions of each env separate and complete',
  'In batch mode a replay-based agent stores for every env and step exactly one transition (that env\'s observation, action, reward, next observation, terminal iff done), with n-step windows never mixing envs and never crossing a done or a reset of that env, for every pattern of dones and resets across envs. '
  'Evaluating with batch_act / batch_observe between training steps does not change what is stored.',
  ['histories', 'configurations', 'inputs'],
  'all per-env patterns of done/reset, numbers of envs and n-step settings',
  'Tests use toy envs and check final performance; per-env boundaries are not enumerated.',
  ['agents/dqn.py', 'agents/ddpg.py', 'agents/soft_actor_critic.py', 'agents/td3.py'],
  [('batch_last_obs/batch_last_action with env_id', 'agents/dqn.py:batch_observe_and_train')],
  ['replay buffer contents after each call'])
p('P24', 'Target networks change only at scheduled syncs, by the configured rule',
  'A target network starts equal to the online network and afterwards changes only at training steps that are multiples of target_update_interval (every update for SAC), becoming an exact copy under hard updates and (1-tau)*target + tau*online under soft updates, for every parameter including batch-normalization statistics. '
  'The online network and other agents are never modified by a sync and never share storage with the target.',
  ['histories', 'configurations', 'inputs'],
  'all step histories, intervals, tau, hard/soft, models with nested links',
  'Tests check the copy functions once on a tiny link and never the schedule.',
  ['misc/copy_param.py', 'agents/dqn.py', 'agents/ddpg.py', 'agents/soft_actor_critic.py', 'agents/td3.py'],
  [('synchronize_parameters', 'misc/copy_param.py'), ('t % target_update_interval', 'agents/dqn.py:act_and_train')],
  ['parameters of model and target model after each call'])
p('P25', 'TD targets bootstrap after truncation but never after a terminal state',
  'Every value update moves the estimate of the sampled state-action pair towards reward + discount * bootstrap, with the bootstrap term removed iff the window is terminal and kept for episodes that were merely truncated, discount gamma^k for k-step windows, and the bootstrap value taken from the target network by the rule of the algorithm (max, double-Q selection, SARSA, advantage learning, clipped double-Q, distributional projection). '
  'Each sample contributes with its importance weight, and estimates of pairs that share no parameters with the sample are unchanged.',
  ['inputs', 'histories', 'configurations'],
  'all Q tables, transitions, window lengths, gammas and terminal flags, for DQN and its variants, DDPG, TD3 and SAC',
  'Tests check learning performance, which tolerates wrong targets; only a few loss functions have unit tests.',
  ['agents/dqn.py', 'agents/double_dqn.py', 'agents/sarsa.py', 'agents/al.py', 'agents/pal.py', 'agents/categorical_dqn.py', 'agents/ddpg.py', 'agents/td3.py', 'agents/soft_actor_critic.py'],
  [('_compute_target_values', 'agents/dqn.py'), ('compute_critic_loss', 'agents/ddpg.py')],
  ['change of a tabular Q function across an update'])
p('P26', 'On-policy targets: GAE / n-step returns stop at episode ends',
  'Value targets and advantages used by the on-policy agents are the generalized advantage estimates (PPO, TRPO, A2C) or n-step returns (A2C, A3C) of each trajectory segment, bootstrapping from the value of the last observation when the segment was cut or truncated and from zero when the episode was terminal (for A2C also where the env was reset: a documented limitation), never mixing rewards or values across episode ends or envs. '
  'Policy and value parameters move by exactly the gradient these targets imply.',
  ['histories', 'inputs', 'configurations'],
  'all trajectories with episode ends, truncations and segment cuts at any position, numbers of envs, gamma, lambda',
  'Tests check end performance on toy envs or a single hand-made episode.',
  ['agents/ppo.py', 'agents/trpo.py', 'agents/a2c.py', 'agents/a3c.py', 'agents/reinforce.py'],
  [('_add_advantage_and_value_target_to_episode', 'agents/ppo.py'), ('_compute_returns', 'agents/a2c.py'), ('update', 'agents/a3c.py')],
  ['parameter change of tabular policy/value functions'])
p('P27', 'On-policy datasets: each transition is used exactly once per epoch',
  'PPO and TRPO update exactly when the number of collected transitions reaches update_interval (or, in batch mode, first exceeds it), using every transition collected since the last update exactly once per epoch and none from before; minibatches have the configured size (the last recurrent one may be smaller) and recurrent sub-sequences stay contiguous, within one episode and at most the maximum length. '
  'A2C updates every update_steps steps and A3C every t_max steps and at episode ends, and REINFORCE after every batchsize episodes, again with each transition used exactly once.',
  ['histories', 'configurations'],
  'all episode length patterns, update intervals, minibatch sizes, epochs, numbers of envs',
  'Tests run fixed settings in which sizes divide evenly.',
  ['agents/ppo.py', 'agents/trpo.py', 'agents/a2c.py', 'agents/a3c.py', 'agents/reinforce.py'],
  [('_update_if_dataset_is_ready', 'agents/ppo.py'), ('_yield_subset_of_sequences_with_fixed_number_of_items', 'agents/ppo.py')],
  ['observations reaching the model during updates'])
p('P28', 'Evaluating an agent never changes what it learned or what it will learn',
  'Calling act / stop_episode (or batch_act / batch_observe) any number of times between training episodes leaves every parameter, optimizer state, replay buffer, normalizer statistic, exploration schedule and step counter untouched, so that the subsequent training is the same as without the evaluation (given the same random numbers). '
  'For recurrent models that keep separate training and evaluation states, evaluation in the middle of a training episode does not disturb the training state, nor training the evaluation state.',
  ['histories', 'configurations'],
  'all placements of evaluation episodes in training histories, all agents',
  'Tests never compare training with and without interleaved evaluation.',
  ['agents/dqn.py', 'agents/ddpg.py', 'agents/ppo.py', 'agents/trpo.py', 'agents/a2c.py', 'agents/a3c.py', 'agents/soft_actor_critic.py', 'agents/td3.py', 'agents/reinforce.py'],
  [('separate train/test recurrent states', 'agents/dqn.py:_evaluate_model_and_update_recurrent_states'), ('train/test config', 'agents/*.py')],
  ['parameters, statistics, actions after evaluation'])
p('P29', 'Recurrent state follows one env\'s episode and resets exactly at its end',
  'A recurrent agent in single or batch mode feeds its model, at every step and for every env, the recurrent state produced by the previous step of the same env\'s current episode, starting from the initial state right after a done or reset of that env and only then. '
  'Masking, extracting and concatenating batched recurrent states act on exactly the requested sequences, and stepping one by one equals processing whole sequences at once.',
  ['histories', 'configurations', 'inputs'],
  'all per-env patterns of done/reset, interleaved evaluation, LSTM/GRU/RNN, nested containers',
  'Tests check shapes and a single masked batch.',
  ['agents/dqn.py', 'agents/ppo.py', 'agents/trpo.py', 'links/stateless_recurrent.py', 'links/stateless_recurrent_sequential.py', 'links/stateless_recurrent_branched.py'],
  [('mask_recurrent_state_at', 'links/stateless_recurrent.py'), ('_batch_reset_recurrent_states_when_episodes_end', 'agents/dqn.py')],
  ['action values of a history-counting recurrent model'])
p('P30', 'Saving and reusing stateful recurrent state restores it exactly',
  'For any nesting of state-keeping and state-resetting contexts around any calls of a stateful recurrent model, the state after leaving a context equals the state before entering it, including when that was the initial state, and inside a resetting context the model starts from the initial state. '
  'get_state / set_state / reset_state / unchain_backward of a model or part of it apply to every LSTM or Recurrent sub-link of it, however nested, and to nothing else.',
  ['histories', 'configurations', 'fault_sequences'],
  'all nestings of contexts and calls, models with nested chains, exits by exception',
  'Tests check single contexts from a non-initial state.',
  ['recurrent.py', 'links/sequence.py'],
  [('state stack', 'recurrent.py:Recurrent'), ('set_state/get_state', 'recurrent.py')],
  ['model outputs inside and after contexts'])
p('P31', 'Saving and loading an agent restores everything it has learned',
  'After save and load into a fresh agent of the same configuration, all model, target-model, average-model and normalizer values and optimizer states are equal to those of the saved agent, so that its evaluation actions are the same and further training on the same data gives the same parameters. '
  'Saving changes nothing in the agent, creates the directory if needed, and can be repeated at any point of training, including before the first update.',
  ['histories', 'crash_points', 'configurations'],
  'every point of training as save point, all agents',
  'Tests only check that save and load do not fail and evaluation scores stay similar.',
  ['agent.py', 'agents/*.py', 'links/empirical_normalization.py'],
  [('AttributeSavingMixin', 'agent.py'), ('saved_attributes', 'agents/*.py')],
  ['parameters and actions of the loaded agent'])
p('P32', 'Shared parameters: every worker sees every update; local models are private',
  'After sharing, a model\'s parameters and persistent values and an optimizer\'s state have unchanged values, every process or copy synchronized to them observes every later write by any other, and applying an update in one worker changes the shared values exactly once. '
  'Links that were not shared, or were made not shared, are never affected.',
  ['schedules', 'histories', 'configurations'],
  'all orders of writes by several holders, nested links, scalar and array persistents, several optimizers',
  'Tests check one link with one write.',
  ['misc/async_.py', 'agents/a3c.py', 'agents/nsq.py'],
  [('shared arrays', 'misc/async_.py:set_shared_params/set_shared_states')],
  ['parameter values seen by each holder'])
p('P33', 'Explorers: exact decay schedules and only legal or greedy actions',
  'An epsilon-greedy explorer returns, at step t, the greedy action unless it explores, explores with probability exactly epsilon(t) choosing from the given random action function, and epsilon(t) follows its schedule: constant, or linear from start to end over the decay steps and end afterwards. '
  'Greedy returns the greedy action always, Boltzmann samples with softmax(Q/T) probabilities, and additive noise explorers return greedy plus noise clipped to the bounds given.',
  ['inputs', 'histories', 'configurations'],
  'all t, all schedules including increasing ones and zero decay steps, all epsilons',
  'Tests check one schedule at a few points.',
  ['explorers/epsilon_greedy.py', 'explorers/boltzmann.py', 'explorers/greedy.py', 'explorers/additive_gaussian.py', 'explorers/additive_ou.py'],
  [('compute_epsilon / select_action', 'explorers/epsilon_greedy.py')],
  ['selected actions and their frequencies'])
p('P34', 'Observation normalization uses the exact running mean and variance',
  'After any sequence of batches, the normalizer\'s mean and standard deviation are those of all samples experienced so far, independently of how they were split into batches; normalizing uses exactly those statistics, updates them only when asked to and never after the limit given by until, and inverse undoes normalization. '
  'Clipping bounds the result, and saving, loading or copying the normalizer preserves its behaviour.',
  ['histories', 'inputs', 'configurations'],
  'all splits of all sample sequences into batches, interleavings of experience / call / save / load',
  'Tests check one sequence of equal batches.',
  ['links/empirical_normalization.py'],
  [('incremental mean/var', 'links/empirical_normalization.py:EmpiricalNormalization.experience')],
  ['mean, std, outputs'])
p('P35', 'Discrete action values are consistent with the Q values they wrap',
  'For every batch of Q values, the greedy action attains the maximum, max is that maximum, evaluating actions picks exactly the entry of each row, advantages are Q minus the row maximum, and slicing a batch of action values equals building them from the sliced Q values. '
  'For distributional action values the Q value of an action is the expectation of its atoms, and all of the above hold for those expectations.',
  ['inputs'],
  'all Q arrays (including ties and negative values), all actions, all slices',
  'Tests use a few random arrays and never ties.',
  ['action_value.py'],
  [('DiscreteActionValue', 'action_value.py')],
  ['attributes of action value objects'])
p('P36', 'Same seed, same run',
  'After set_random_seed(s) the whole training run of an agent on a deterministic env - actions, sampled minibatches, parameter values and statistics - is a function of s and the configuration only, so two runs in fresh processes agree exactly. '
  'Seeding a vector env or a random-action wrapper makes its behaviour a function of that seed, and the worker processes of an asynchronous run get seeds of their own that are functions of the run\'s seed or their index.',
  ['configurations', 'histories'],
  'all agents and explorers on discrete and continuous toy envs, repeated runs in different processes',
  'Tests never compare two runs.',
  ['misc/random_seed.py', 'envs/*.py', 'wrappers/randomize_action.py'],
  [('set_random_seed', 'misc/random_seed.py')],
  ['action and parameter traces of two runs'])
p('P37', 'The emulator env plays each agent step as frame_skip frames of one game',
  'The ALE env repeats the chosen legal action for frame_skip frames, stops early when the episode ends, returns the sum of those frames\' rewards and the last n screens of the current episode (each the pixelwise max of two consecutive frames, blank before the episode\'s start; the screen of a terminal step may be missing), and reports terminal iff the game is over or, when so configured, a life was lost in that step. '
  'Reset restarts the game only if it is over, otherwise continues the same game with the remaining lives.',
  ['histories', 'configurations'],
  'all emulator behaviours (life loss, game over, rewards at any frame), frame skips and configurations',
  'Tests run a real ROM randomly and check shapes.',
  ['envs/ale.py'],
  [('receive_action/initialize', 'envs/ale.py:ALE')],
  ['calls on the emulator; returned values'])
p('P38', 'Value-transforming env wrappers transform exactly what they claim to',
  'Scaling or clipping rewards, casting or scaling observations, normalizing continuous action spaces and randomizing discrete actions affect exactly the value they name by the documented map and nothing else: all other results and all calls pass through unchanged and in order. '
  'Normalized actions map affinely onto the original bounds; a random action replaces the agent\'s with exactly the configured probability and uniformly over the action space.',
  ['inputs', 'histories', 'configurations'],
  'all action/reward/observation values, bounds, scales, fractions and step/reset sequences',
  'Tests check few values.',
  ['wrappers/scale_reward.py', 'wrappers/cast_observation.py', 'wrappers/normalize_action_space.py', 'wrappers/randomize_action.py', 'wrappers/atari_wrappers.py', 'wrappers/render.py'],
  [('gym wrappers', 'wrappers/*.py')],
  ['values returned and values reaching the wrapped env'])

p('P39', 'Action distributions agree with themselves and with their policies',
  'Log-probabilities, probabilities, entropies, KL divergences and modes of a batch of softmax (with inverse temperature and minimum probability), maximum-entropy mellowmax, Gaussian, tanh-squashed Gaussian and deterministic distributions are those their parameters define, row by row, and so are the gradients that reach the parameters (and, for samples of Gaussians, the reparameterized ones). '
  'Samples follow the distribution, independently across rows, components and calls, and come with their own log-probability; slices and copies are the same distributions, copies detached from the graph and unaffected by later changes of the original. '
  'Policies make the distribution their documentation says: layers, bounds on the mean by tanh, softplus plus min_var, state-independent or fixed, spherical or diagonal covariance, beta, min_prob and omega.',
  ['inputs', 'configurations', 'histories'],
  'all logits, means, variances and values; all settings; any order of reading cached attributes, slicing, copying and changing originals',
  'Tests compare a few random parameters of each class.',
  ['distribution.py', 'policies/*.py', 'functions/mellowmax.py', 'functions/arctanh.py', 'functions/bound_by_tanh.py'],
  [('Distribution classes', 'distribution.py'), ('policies', 'policies/*.py')],
  ['values and gradients of distributions', 'frequencies of samples'])

p('P40', 'Asynchronous agents take exactly the updates their algorithm defines',
  'NSQ, PCL and ACER learn from segments of at most t_max consecutive transitions of one worker\'s episode, each transition once, by exactly the gradient step of their algorithm (n-step Q targets from the target network; path consistency; truncated importance weights with bias correction, Retrace targets and trust region), bootstrapping from the last observation unless it is terminal. '
  'Every update goes into the shared parameters once and leaves the worker\'s local model equal to them; the target network is copied every i_target global steps, the average model moves by 1 - trust_region_alpha per update, and neither changes otherwise. '
  'After each on-policy update n_times_replay replays take place iff the buffer holds replay_start_size transitions (and batchsize episodes), using parts of stored episodes exactly as experienced, each with its own importance weight.',
  ['histories', 'inputs', 'configurations', 'schedules'],
  'all interleavings of training calls of several workers sharing parameters, all episode lengths, rewards, t_max, rollout lengths, batch sizes, replay settings, discrete and continuous actions',
  'Tests check learning performance on a toy env and single loss terms.',
  ['agents/nsq.py', 'agents/pcl.py', 'agents/acer.py', 'misc/copy_param.py', 'replay_buffers/episodic.py'],
  [('update / compute_loss / update_from_replay', 'agents/{nsq,pcl,acer}.py')],
  ['parameters of shared, local, target and average models after each call', 'episodes sampled from the replay buffer'])

p('P41', 'Agents act greedily, explore and sample exactly as configured',
  'Evaluation never consults the explorer: value-based agents take an action of maximal value, deterministic-policy agents the output of their policy, and agents with stochastic policies the most probable action if act_deterministically is set and otherwise a sample of their policy\'s distribution. '
  'In training, an agent with an explorer consults it exactly once per env and step with the number of steps trained so far, the greedy action and the action values of that env\'s own observation, and does what the explorer chose; burnin_action_func, where given, replaces it exactly until the first update, and agents without an explorer sample. '
  'All of this holds for single observations and batches, for what phi makes of the observation, and actions have the type and shape of the action space.',
  ['histories', 'inputs', 'configurations'],
  'all agents, all model outputs (with ties), single and batch modes, interleavings of evaluation, training and episode ends',
  'Tests train agents on toy envs and check the final performance.',
  ['agents/*.py'],
  [('act / act_and_train / batch_act / batch_act_and_train', 'agents/*.py')],
  ['actions returned', 'calls the explorer receives'])

p('P42', 'Networks and differentiable functions compute what they document',
  'MLPs, batch-normalized MLPs, Q- and V-functions (late action input, LSTM, distributional, dueling, quadratic with bounds) apply exactly their documented layers in order, with running statistics moved by training-mode calls only, and their gradients reach parameters and inputs by the chain rule; quadratic action values peak at the greedy action within the bounds, with matching advantages, maxima and slices. '
  'The library\'s functions (mellowmax, bounding by tanh, inverting gradients, triangular matrices, sums, scaled gradients) return their documented values and gradients; noisy links add factorized signed-root Gaussian noise drawn anew in every call, replacing every linear link of a model; Sequence and Branched pass on results and accepted arguments. '
  'Initializers give weights of the documented distribution and scale.',
  ['inputs', 'configurations', 'histories'],
  'all sizes, parameters, inputs, batch sizes; sequences of training, evaluation and parameter changes',
  'Tests check shapes and a few numerical gradients.',
  ['links/*.py', 'functions/*.py', 'q_functions/*.py', 'v_functions/*.py', 'action_value.py', 'initializers/*.py', 'misc/init_like_torch.py'],
  [('links, Q-functions', 'links/*.py, q_functions/*.py'), ('functions', 'functions/*.py')],
  ['outputs and gradients', 'frequencies of noises and initial weights'])

p('P43', 'Env modifiers, reward filters and the toy env behave as documented',
  'Modifiers applied to an env in any order and number make each step behave as their composition: filtered actions, filtered or clipped rewards (running-average and normalizing filters included), actions repeated with rewards summed until the episode ends, rendering after every step and at close, and an end of the episode exactly at its time limit, counted anew from every reset. '
  'The ABC env follows its documented dynamics for every size and setting: correct actions advance, the last one is rewarded, wrong ones end the episode or stay, observations are one-hot and shifted by the offset of the episode; continuous actions are clipped logits of the inner action, offsets and actions are drawn (or alternate, or are most probable) as documented.',
  ['histories', 'inputs', 'configurations'],
  'all orders of modifiers, rewards, ends of episodes, calls; all sizes, settings and actions of the toy env',
  'Tests run random policies on the toy env; modifiers and filters have few tests or none.',
  ['misc/env_modifiers.py', 'misc/reward_filter.py', 'envs/abc.py'],
  [('make_*', 'misc/env_modifiers.py'), ('ABC', 'envs/abc.py')],
  ['values returned and calls of the base env', 'frequencies of offsets and inner actions'])

p('P44', 'Optimizers, parameter copies, schedules and solvers take documented steps',
  'RMSpropAsync moves each parameter by lr g / sqrt(ms + eps) with ms the running average of g^2, NonbiasWeightDecay adds rate times the parameter to the gradient of every parameter not named b, and each affects its own model only. '
  'Copying, soft-copying (by tau) and gradient-copying between models of equal structure act on every parameter at any depth, and on batch-normalization statistics, without ever sharing arrays; absent gradients are copied as absent. '
  'LinearInterpolationHook sets the value that lies linearly between its ends (constant outside), conjugate_gradient solves positive definite systems (b = 0 included) within its iterations and tolerance, and batch_states stacks what phi makes of every observation, component by component.',
  ['histories', 'inputs', 'configurations'],
  'all structures, parameter values, gradients (absent ones included), hyperparameters and interleavings of updates, copies and schedules on two models; all positive definite systems',
  'Tests check few values and shapes.',
  ['optimizers/*.py', 'misc/copy_param.py', 'misc/conjugate_gradient.py', 'misc/batch_states.py', 'experiments/hooks.py'],
  [('optimizers', 'optimizers/*.py'), ('copy_param ...', 'misc/copy_param.py'), ('conjugate_gradient', 'misc/conjugate_gradient.py')],
  ['parameters, gradients and statistics of both models after every operation', 'solutions, batches, values set'])

if __name__ == '__main__':
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, '..', 'properties.jsonl'), 'w') as f:
        for q in P:
            q['statement'] = q['statement'].strip()
            assert len(q['title']) <= 80, (q['id'], len(q['title']))
            f.write(json.dumps(q) + '\n')
    print(len(P), 'properties')
