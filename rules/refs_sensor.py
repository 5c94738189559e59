"""Reference definitions for the sensor."""

_HELP = """
    def typed(pick):
        for arg in agent.decision_logic.args:
            if pick(arg):
                return arg
        return None
"""

SENSE = """
def ref(self, agent, state_dict, lane_map, simulate=True):
    cont = {}
    disc = {}
    lens = {"others": len(state_dict) - 1}
    for aid in state_dict:
        arg_type = None
        arg_name = None
        if aid == agent.id:
            for arg in agent.decision_logic.args:
                if arg.name == "ego":
                    arg_type = arg.typ
                    break
        else:
            for arg in agent.decision_logic.args:
                if arg.name != "ego" and "map" not in arg.name:
                    arg_name = arg.name
                    arg_type = arg.typ
                    break
        if arg_type is None:
            continue
        d = agent.decision_logic.state_defs[arg_type]
        if aid == agent.id:
            if simulate:
                set_states_2d(cont, disc, "ego", state_dict[aid], d.cont, d.disc, d.static)
            else:
                set_states_3d(cont, disc, "ego", state_dict[aid], d.cont, d.disc, d.static)
        else:
            if simulate:
                add_states_2d(cont, disc, arg_name, state_dict[aid], d.cont, d.disc, d.static)
            else:
                add_states_3d(cont, disc, arg_name, state_dict[aid], d.cont, d.disc, d.static)
    return cont, disc, lens
"""

SETS = """
def ref(d, thing, attrs, vals):
    d.update({thing + "." + k: v for k, v in zip(attrs, vals)})
"""

ADDS = """
def ref(d, thing, attrs, vals):
    for k, v in zip(attrs, vals):
        name = thing + "." + k
        if name in d:
            d[name].append(v)
        else:
            d[name] = [v]
"""

SET2 = """
def ref(cnts, disc, thing, val, cont_var, disc_var, stat_var):
    state, mode, static = val
    sets(cnts, thing, cont_var, state[1:])
    sets(disc, thing, disc_var, mode)
    sets(disc, thing, stat_var, static)
"""
SET3 = """
def ref(cnts, disc, thing, val, cont_var, disc_var, stat_var):
    state, mode, static = val
    sets(cnts, thing, cont_var, np.transpose(np.array(state)[:, 1:]))
    sets(disc, thing, disc_var, mode)
    sets(disc, thing, stat_var, static)
"""
ADD2 = """
def ref(cont, disc, thing, val, cont_var, disc_var, stat_var):
    state, mode, static = val
    adds(cont, thing, cont_var, state[1:])
    adds(disc, thing, disc_var, mode)
    adds(disc, thing, stat_var, static)
"""
ADD3 = """
def ref(cont, disc, thing, val, cont_var, disc_var, stat_var):
    state, mode, static = val
    adds(cont, thing, cont_var, np.transpose(np.array(state)[:, 1:]))
    adds(disc, thing, disc_var, mode)
    adds(disc, thing, stat_var, static)
"""

# sensors with the variables of one kind of agent written out
FIXED_SET2 = """
def ref(cnts, disc, thing, val):
    state, mode, static = val
    sets(cnts, thing, VARS, state[1:END])
    sets(disc, thing, MODES, mode)
"""
FIXED_SET3 = """
def ref(cnts, disc, thing, val):
    state, mode, static = val
    sets(cnts, thing, VARS, np.transpose(np.array(state)[:, 1:END]))
    sets(disc, thing, MODES, mode)
"""
FIXED_ADD2 = """
def ref(cont, disc, thing, val):
    state, mode, static = val
    adds(cont, thing, VARS, state[1:END])
    adds(disc, thing, MODES, mode)
"""
FIXED_ADD3 = """
def ref(cont, disc, thing, val):
    state, mode, static = val
    adds(cont, thing, VARS, np.transpose(np.array(state)[:, 1:END]))
    adds(disc, thing, MODES, mode)
"""
FIXED_SENSE = """
def ref(self, agent, state_dict, lane_map, simulate=True):
    cont = {}
    disc = {}
    for aid in state_dict:
        if aid == agent.id:
            if simulate:
                set_states_2d_ball(cont, disc, "ego", state_dict[aid])
            else:
                set_states_3d_ball(cont, disc, "ego", state_dict[aid])
        else:
            if simulate:
                add_states_2d_ball(cont, disc, "others", state_dict[aid])
            else:
                add_states_3d_ball(cont, disc, "others", state_dict[aid])
    return cont, disc, {"others": len(state_dict) - 1}
"""

# star sets: one set stands for all the variables
STAR_SETS_ = """
def ref(d, thing, attrs, vals, stars):
    if stars:
        d.update({thing + "." + k: vals[0] for k in attrs})
    else:
        d.update({thing + "." + k: v for k, v in zip(attrs, vals)})
"""
STAR_ADDS = """
def ref(d, thing, attrs, vals, stars):
    if stars:
        for k in attrs:
            if thing + "." + k not in d:
                d[thing + "." + k] = [vals[0]]
            else:
                d[thing + "." + k].append(vals[0])
    else:
        for k, v in zip(attrs, vals):
            if thing + "." + k not in d:
                d[thing + "." + k] = [v]
            else:
                d[thing + "." + k].append(v)
"""
STAR_SET = """
def ref(cnts, disc, thing, val, cont_var, disc_var, stat_var):
    state, mode, static = val
    sets(cnts, thing, cont_var, state[1:], True)
    sets(disc, thing, disc_var, mode, False)
    sets(disc, thing, stat_var, static, False)
"""
STAR_ADD = """
def ref(cont, disc, thing, val, cont_var, disc_var, stat_var):
    state, mode, static = val
    adds(cont, thing, cont_var, state[1:], True)
    adds(disc, thing, disc_var, mode, False)
    adds(disc, thing, stat_var, static, False)
"""
