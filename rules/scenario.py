"""Rules for scenarios and agents."""
from . import refs_scn
from .common import *
from .effects import COPIES, copied

refs("verse.scenario.scenario:", {
    "simulate": ("Scenario.simulate", "SIM"),
    "simulate_simple": ("Scenario.simulate_simple", "SIM_SIMPLE"),
    "simulate_multi": ("Scenario.simulate_multi", "SIM_MULTI"),
    "verify": ("Scenario.verify", "VERIFY"),
    "verify_part": ("Scenario.verify_partitioned", "VERIFY_PART"),
    "add_agent": ("Scenario.add_agent", "ADD_AGENT"),
    "lane_mode": ("Scenario._update_agent_lane_mode", "LANE_MODE"),
    "set_map": ("Scenario.set_map", "SET_MAP"),
    "set_sensor": ("Scenario.set_sensor", "SET_SENSOR"),
    "set_one": ("Scenario.set_init_single", "SET_ONE"),
    "set_all": ("Scenario.set_init", "SET_ALL"),
    "check_init": ("Scenario._check_init", "CHECK_INIT"),
    "from_agent": ("Scenario._get_init_from_agent", "FROM_AGENT"),
    "ray_init": ("_check_ray_init", "RAY_INIT"),
    "cleanup": ("Scenario.cleanup_cache", "CLEANUP"),
    "update_config": ("Scenario.update_config", "UPDATE_CONFIG"),
    "scenario_init": ("Scenario.__init__", "SCENARIO_INIT"),
}, vars(refs_scn))
refs("verse.agents.base_agent:BaseAgent.", {
    "agent_init": ("__init__", "AGENT_INIT"),
    "agent_set": ("set_initial", "AGENT_SET"),
    "agent_state": ("set_initial_state", "AGENT_STATE"),
    "agent_mode": ("set_initial_mode", "AGENT_MODE"),
    "agent_static": ("set_static_parameter", "AGENT_STATIC"),
    "agent_param": ("set_uncertain_parameter", "AGENT_PARAM"),
    "tc": ("TC_simulate", "TC"),
}, vars(refs_scn))
refs("verse.utils.utils:", {
    "sample": ("sample_rect", "SAMPLE"),
    "dedup": ("dedup", "DEDUP"),
}, vars(refs_scn))

ENTRY = ("simulate", "simulate_simple", "simulate_multi", "verify", "verify_part")


def h01(ctx):
    check(ctx, "initial-set-stored-for-its-agent", ("set_one",), ("set_all",), ("add_agent",), ("from_agent",))
    check(ctx, "agent-keeps-its-initial-set", ("agent_init",), ("agent_set",), ("agent_state",), ("agent_mode",), ("agent_static",), ("agent_param",))
    check(ctx, "values-of-the-root", ("root",), ("sample",))
    check(ctx, "every-agent-initialised", ("check_init",), *[(n, CALL("root_from_inits"), CALL("_check_init"), CALL("_get_init_from_agent")) for n in ENTRY])
    for f, what in COPIES.items():
        if "Agent." in f or "Scenario." in f:
            copied(ctx, "initial-sets-are-copies", f, what)


def h03(ctx):
    check(ctx, "same-settings-for-every-run", *[(n,) for n in ENTRY])
    check(ctx, "configuration-reaches-the-engines", ("update_config",), ("scenario_init",), ("cleanup",), ("ray_init",), ("sim_init",), ("ver_init",))
    check(ctx, "map-reaches-the-agents", ("set_map",), ("set_sensor",), ("lane_mode",), ("add_agent",))


def m01(ctx):
    check(ctx, "start-of-the-run", ("root",))
    check(ctx, "seed-decides-the-start", ("sample",), ("simulate",), ("simulate_simple",), ("simulate_multi",))


def l01(ctx):
    check(ctx, "trace-of-an-agent", ("tc",))


RULES = {"H01": h01, "H03": h03, "M01": m01, "L01": l01}
