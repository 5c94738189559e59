"""Rules for the bundled agents."""
from . import refs_agents
from .common import *

E = "verse.agents.example_agent."
V = vars(refs_agents)
refs(E + "car_agent:", {
    "npc_tc": ("NPCAgent.TC_simulate", "CAR_TC"), "car_tc": ("CarAgent.TC_simulate", "CAR_TC"),
    "npc_dyn": ("NPCAgent.dynamics", "NPC_DYN"), "car_dyn": ("CarAgent.dynamics", "CAR_DYN"),
    "npc_act": ("NPCAgent.action_handler", "NPC_ACT"), "car_act": ("CarAgent.action_handler", "CAR_ACT"),
    "car2_act": ("CarAgentSwitch2.action_handler", "CAR2_ACT"), "weird_act": ("WeirdCarAgent._action_handler", "WEIRD_ACT"), "weird_out": ("WeirdCarAgent.action_handler", "WEIRD_OUT"),
    "deb_act": ("CarAgentDebounced.action_handler", "DEB_ACT"), "deb_dyn": ("CarAgentDebounced.dynamics", "DEB_DYN"), "car2_dyn": ("CarAgentSwitch2.dynamics", "CAR2_DYN"),
    "npc_new": ("NPCAgent.__init__", "NPC_NEW"), "car_new": ("CarAgent.__init__", "CAR_NEW"), "deb_new": ("CarAgentDebounced.__init__", "CAR_SUB_NEW"),
    "car2_new": ("CarAgentSwitch2.__init__", "CAR_SUB_NEW"), "weird_new": ("WeirdCarAgent.__init__", "WEIRD_NEW"),
}, V)
refs(E + "origin_agent:", {
    "vdp_new": ("vanderpol_agent.__init__", "PLAIN_NEW"), "thermo_new": ("thermo_agent.__init__", "PLAIN_NEW"), "craft_new": ("craft_agent.__init__", "PLAIN_NEW"),
    "vdp_tc": ("vanderpol_agent.TC_simulate", "STEP_TC"), "vdp_dyn": ("vanderpol_agent.dynamics", "VDP_DYN"),
    "thermo_tc": ("thermo_agent.TC_simulate", "THERMO_TC"), "thermo_dyn": ("thermo_agent.dynamics", "THERMO_DYN"),
    "thermo_act": ("thermo_agent.action_handler", "THERMO_ACT"),
    "craft_tc": ("craft_agent.TC_simulate", "CRAFT_TC"), "craft_act": ("craft_agent.action_handler", "CRAFT_ACT"),
    "craft_passive": ("craft_agent.Passive_dynamics", "PASSIVE_DYN"),
    "craft_a": ("craft_agent.ProxA_dynamics", "PROX_A"), "craft_b": ("craft_agent.ProxB_dynamics", "PROX_B"),
}, V)
refs(E + "robot_agent:RobotAgent.", {"robot_new": ("__init__", "PLAIN_NEW"), "robot_tc": ("TC_simulate", "STEP_TC"), "robot_dyn": ("dynamics", "ROBOT_DYN")}, V)
refs(E + "sign_agent:SignAgent.", {"sign_new": ("__init__", "SIGN_NEW"), "sign_tc": ("TC_simulate", "SIGN_TC")}, V)
refs(E + "ball_agent:BallAgent.", {"ball_new": ("__init__", "PLAIN_NEW"), "ball_dyn": ("dynamics", "BALL_DYN")}, V)
refs(E + "line_agent:LineAgent.", {"line_new": ("__init__", "PLAIN_NEW"), "line_dyn": ("dynamics", "LINE_DYN")}, V)
refs(E + "quadrotor_agent:QuadrotorAgent.", {
    "quad_new": ("__init__", "QUAD_NEW"), "quad_dyn": ("dynamics", "QUAD_DYN"), "quad_act": ("action_handler", "QUAD_ACT"), "quad_tc": ("TC_simulate", "QUAD_TC"),
}, V)


def l02(ctx):
    check(ctx, "one-row-per-step", *[(n + "_tc",) for n in ("npc", "car", "vdp", "thermo", "craft", "robot", "sign", "quad")])
    check(ctx, "control-of-the-mode", *[(n + "_act",) for n in ("npc", "car", "car2", "weird", "thermo", "craft", "quad")], ("weird_out",), ("deb_act",))
    check(ctx, "settings-of-the-agent", *[(n + "_new",) for n in ("npc", "car", "deb", "car2", "weird", "vdp", "thermo", "craft", "robot", "sign", "ball", "line", "quad")])
    check(ctx, "equations-of-motion", *[(n + "_dyn",) for n in ("npc", "car", "deb", "car2", "vdp", "thermo", "robot", "ball", "line", "quad")],
          ("craft_passive",), ("craft_a",), ("craft_b",))


RULES = {"L02": l02}
