"""The agents of the zoo (drv/zoo.py) by how they can be driven."""

# kind -> modes it can be trained in
DQNS = ['dqn', 'double', 'sarsa', 'al', 'pal', 'dpal', 'dpp', 'dppl', 'dppg',
        'residual', 'cat', 'catd', 'iqn', 'diqn']
SERIAL = DQNS + ['dqn_prio', 'dqn_noisy', 'ddpg', 'td3', 'sac', 'sac_t',
                 'pgt', 'ppo', 'trpo', 'reinforce', 'a3c', 'nsq', 'acer',
                 'acer_sdn', 'pcl', 'pcl_async', 'dqn_bn', 'ddpg_bn',
                 'a3c_bn', 'reinforce_bn', 'ppo_bn', 'acer_bn', 'nsq_bn',
                 'pcl_bn', 'sac_bn', 'td3_bn', 'pgt_bn', 'trpo_bn']
# recurrent models with separate states for training and evaluation
SEPARATE = ['dqn_r', 'double_r', 'iqn_r', 'ppo_r', 'trpo_r']
# recurrent models whose state training and evaluation share
STATEFUL = ['a3c_r', 'nsq_r', 'acer_r', 'pcl_r', 'reinforce_r', 'ddpg_r']
COUNTING_STATEFUL = ['ddpg', 'a3c', 'nsq', 'acer', 'pcl', 'reinforce']
BATCH = DQNS + ['dqn_prio', 'dqn_noisy', 'ddpg', 'td3', 'sac', 'sac_t',
                'ppo', 'trpo', 'a2c', 'a2c_bn', 'dqn_bn', 'ddpg_bn',
                'ppo_bn', 'sac_bn', 'td3_bn', 'trpo_bn',
                'dqn_r', 'double_r', 'iqn_r', 'ppo_r', 'trpo_r']


def params(r):
    """Random settings of an agent."""
    return dict(
        opt=r.choice(['adam', 'adam', 'mom', 'rms', 'sgd']),
        n_envs=r.choice([1, 2, 3]), n_eval=r.choice([1, 2, 3]),
        nstep=r.choice([1, 1, 2]), start=r.choice([5, 7]),
        ui=r.choice([1, 2, 3, 5]), times=r.choice([1, 2]),
        ti=r.choice([3, 5]), sync=r.choice(['hard', 'soft']),
        det=r.random() < .5, gae=r.random() < .5, avg=r.random() < .5,
        bs=r.choice([1, 2, 3]), sep=r.random() < .5, ou=r.random() < .5, norm=r.random() < .7)
