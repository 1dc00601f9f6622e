package main

// relevant names, per property, the probes of which at least one must have
// fired for a run to say something about the property.
var relevant = map[string][]string{
	"P01": {"bad_login_secret", "bad_login_unknown", "bad_login_ver", "bad_login_verandsecret", "service_before_login"},
	"P02": {"refused_at_cap", "at_cap"},
	"P03": {"at_client_limit", "limit_refusal"},
	"P04": {"submit_accepted"},
	"P05": {"strict_conn"},
	"P06": {"hostile_input"},
	"P07": {"rate_refusals"},
	"P08": {"report"},
	"P09": {"relogin_ok"},
	"P10": {"heartbeat_sent", "heartbeat_answered", "idle_closed_sgip", "idle_closed_not_logged_in"},
	"P11": {"logout_complete"},
	"P12": {"gen_sf64", "gen_sf32", "gen_bcd", "gen_cycle", "gen_sgip", "gen_init", "gen_full_cycle_bcd", "gen_full_cycle_cycle"},
	"P13": {"journal_checked"},
	"P14": {"healthy_rtt"},
	"P15": {"answered", "reported"},
	"P16": {"hostile_gateway", "conn_fault", "acked_active", "acked_deliver"},
	"P17": {"conn_fault", "stop"},
	"P18": {"journaled"},
	"P19": {"submits"},
	"P20": {"client_known"},
	"P22": {"push_whole", "push_cut", "push_every_tick"},
	"P23": {"limit_checked", "send_over_limit", "spread_checked"},
	"P24": {"login_after_change_ok", "login_after_change_secret", "login_during_change", "login_settled_new_version", "rate_across_change"},
	"P25": {"share_checked", "share_after_edit", "delay_checked", "idle_closed_as_configured", "push_share_checked"},
	"P26": {"whole_agreed", "whole_usage", "whole_healed", "whole_idle_kept"},
	"P27": {"replaced_compared"},
	"P21": {"hook_run", "registry_history", "signal_handled"},
}

var ruleText = map[string]string{
	"P01": "a login with wrong credentials, or a service request before login, reached a gateway",
	"P02": "a gateway was filled to its session cap",
	"P03": "a client reached its connection limit",
	"P04": "at least one submit was accepted",
	"P05": "at least one session logged in and was served over the fragmented transport",
	"P06": "malformed or hostile bytes reached a gateway",
	"P07": "at least one submit was refused by rate limiting",
	"P08": "at least one status report was sent",
	"P09": "after connections had ended, a client logged in again and was served",
	"P10": "the gateway probed, timed out or was probed on some connection",
	"P11": "at least one logout was carried out",
	"P12": "at least two values of one generator were compared",
	"P13": "at least one session's usage record was compared with its traffic",
	"P14": "at least one submit of a healthy session was timed next to misbehaving ones",
	"P15": "at least one response or report was compared with the record it belongs to",
	"P16": "a gateway sent hostile bytes, failed or refused, or its heartbeats and deliveries were checked for acknowledgements",
	"P17": "connections were refused, cut or left silent, or the program was told to end",
	"P18": "at least one record was handed to the persistence handler",
	"P19": "at least one send was compared with the frames that arrived",
	"P20": "at least one client was loaded and looked up",
	"P23": "the sends to an operator were compared with its limit, or the load of its connections with each other",
	"P22": "at least one upstream message was compared with the configured texts, or the pace of a session's upstream messages with its gateway's tick",
	"P24": "a client logged in after its stored entry had changed, or a session outlived a change of its entry",
	"P25": "the outcomes or delays of at least 50 submits, or an idle connection, were compared with the configuration in force",
	"P26": "records of the client were compared with the gateways' answers, or a pool was completed after trouble",
	"P27": "what the client held before connections were lost was compared with what it held when all were replaced",
	"P21": "an event key was used by more than one worker, or a termination signal was handled",
}

// quickRuns is the number of seeds of the quick tier.
var quickRuns = map[string]int{
	"P01": 12000, "P02": 6000, "P03": 12000, "P04": 8000, "P05": 12000, "P06": 8000, "P07": 10000,
	"P08": 10000, "P09": 12000, "P10": 12000, "P11": 10000, "P12": 12000, "P13": 8000, "P14": 3600,
	"P15": 4400, "P16": 4000, "P17": 3600, "P18": 3400, "P19": 3800,
	"P20": 24000, "P21": 32000, "P22": 8000, "P23": 5000, "P24": 8000, "P25": 3000, "P26": 6000, "P27": 3600,
}

func ruleOf(prop string) string { return ruleText[prop] }

func serverSide(prop string) bool {
	switch prop {
	case "P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P13", "P14", "P22", "P24", "P25":
		return true
	}
	return false
}

func realParts(prop string) []string {
	if serverSide(prop) {
		return []string{"msc_server (bootstrap, session, traffic, tick, codec handlers)", "codec/cmpp, codec/smgp, codec/sgip", "auth (yaml store)", "utils", "comm", "event_manage", "github.com/panjf2000/ants/v2 (worker pools)", "golang.org/x/time/rate"}
	}
	switch prop {
	case "P15", "P16", "P17", "P18", "P19", "P23", "P27":
		return []string{"msc_client (bootstrap, api, session factory, sessions, receive loops, expiry, shutdown)", "codec/cmpp, codec/smgp, codec/sgip", "auth (yaml store)", "database/mongodb (journal, some runs of P18)", "utils", "comm", "event_manager", "github.com/panjf2000/ants/v2 (worker pool)", "golang.org/x/time/rate"}
	case "P26":
		return []string{"msc_client (bootstrap, api, session factory, sessions, receive loops, expiry, shutdown)", "msc_server (bootstrap, session, traffic, tick, codec handlers)", "codec/cmpp, codec/smgp, codec/sgip", "auth (yaml store)", "utils", "comm", "event_manager", "github.com/panjf2000/ants/v2 (worker pools)", "golang.org/x/time/rate"}
	case "P12":
		return []string{"utils/snowflake", "utils/snowflake32", "utils (BcdSequence, CycleSequence)", "codec/sgip (sequence)", "msc_server (SeqInit)"}
	case "P20":
		return []string{"auth (YamlStore, MongoStore, reload ticker)", "database/mongodb", "gopkg.in/yaml.v3"}
	case "P21":
		return []string{"event_manager", "msc_server and msc_client (shutdown hooks, bootstrap signal handling)"}
	}
	return nil
}

func stubParts(prop string) []string {
	if serverSide(prop) {
		return []string{"github.com/panjf2000/gnet/v2 (event loops over simulated sockets)", "github.com/hrygo/log (records kept in memory, usage journal observed)", "github.com/hrygo/yaml_config (configuration given by the plan)", "TCP, files, clocks, timers, goroutine scheduler, sync, math/rand", "the SP peers (independent wire codec in the harness)"}
	}
	switch prop {
	case "P15", "P16", "P17", "P18", "P19", "P23", "P27":
		return []string{"TCP (simulated sockets with segmentation, delay, resets, partitions, vanished hosts)", "clocks, timers, goroutine scheduler, sync, channels, os/signal", "github.com/hrygo/log, github.com/hrygo/yaml_config (configuration given by the plan)", "go.mongodb.org/mongo-driver (in-memory collection)", "the gateways (model with an independent wire codec in the harness)", "the calling application"}
	case "P26":
		return []string{"TCP (simulated sockets with segmentation, delay, resets, one-sided losses, holes, stalls)", "github.com/panjf2000/gnet/v2 (event loops over simulated sockets)", "clocks, timers, goroutine scheduler, sync, channels, os/signal, math/rand, files", "github.com/hrygo/log (records kept in memory, usage journal observed), github.com/hrygo/yaml_config (configuration given by the plan)", "the calling application"}
	case "P12":
		return []string{"wall clock (steps, freezes), sleeps, goroutine scheduler, sync", "github.com/hrygo/yaml_config (configuration given by the plan)", "the callers"}
	case "P20":
		return []string{"the file system (simulated files, faults injected)", "go.mongodb.org/mongo-driver (in-memory collection, faults injected)", "clock, tickers, goroutine scheduler, sync", "the readers"}
	case "P21":
		return []string{"os/signal (signals delivered by the plan)", "clock, goroutine scheduler, sync", "github.com/hrygo/log, github.com/hrygo/yaml_config", "the registering workers"}
	}
	return nil
}
