MODULES = ['kf', 'ekf', 'linear', 'imm', 'ukf', 'ckf', 'gh', 'misc', 'stat', 'helpers', 'valid', 'initial', 'program', 'shared']
