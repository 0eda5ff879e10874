PROPS = {'P12': 'schedule', 'P13': 'bc', 'P01': 'p_conservation', 'P02': 'p_flux', 'P03': 'p_update', 'P04': 'p_balance', 'P05': 'p_freestream', 'P06': 'p_viscous', 'P07': 'p_avpde', 'P08': 'p_extrap', 'P09': 'p_maxdt', 'P10': 'mortar', 'P11': 'basis', 'P14': 'geometry', 'P15': 'connection', 'P16': 'p_step', 'P17': 'p_smooth', 'P18': 'p_shared', 'P19': 'p_data', 'P20': 'p_admis', 'P21': 'tree', 'P22': 'p_output', 'P23': 'p_vis', 'P24': 'persist', 'P25': 'adapt', 'P26': 'blocks', 'P27': 'surfaces'}
