package harness

import "strings"

// Nontrivial tells whether a scenario reached what the property is about, judged by what happened in it.
func Nontrivial(prop string, sc *Scenario, s *Stats) bool {
	struck := func(prefixes ...string) bool {
		for k, n := range s.Faults {
			if k == "clock" || k == "net-slow" {
				continue
			}
			if len(prefixes) == 0 && n > 0 {
				return true
			}
			for _, p := range prefixes {
				if strings.HasPrefix(k, p) && n > 0 {
					return true
				}
			}
		}
		return false
	}
	switch prop {
	case "P01":
		return s.Switches > 0 && s.Probes["books"] > 0
	case "P02":
		return struck("crash", "fs-", "net-", "disk")
	case "P03":
		return struck("net-")
	case "P04":
		return struck() || s.Exit["exit-1"] > 0
	case "P05":
		return struck() && s.Exit["exit-0"] > 0
	case "P06":
		return s.Probes["filled-cache-runs"] > 0
	case "P07":
		return s.Probes["expired-removed"] > 0
	case "P08":
		return s.Probes["limited-adds"] > 0
	case "P09":
		return s.Probes["evictions"] > 0
	case "P10":
		return s.Probes["rate-limited"] > 0
	case "P11":
		return s.Probes["parallel-requests"] > 0
	case "P12":
		return struck() || s.Switches > 0 || sc.World.hostile()
	case "P13":
		return struck() || sc.Profile == "odd" || sc.Profile == "hostile"
	case "P14":
		return s.Exit["exit-1"]+s.Exit["crash-137"]+s.Exit["panic-2"] > 0
	case "P15":
		return s.Probes["image-walks"] > 0
	case "P16":
		return s.Execs > int64(s.Runs)
	case "P17":
		return struck() || s.Probes["parallel-requests"] > 0
	case "P25":
		return s.Probes["rich-documents"] > 0
	case "P27":
		return s.Probes["judged-epubs"] > 0
	case "P26":
		return s.Probes["counted-documents"] > 0
	case "P24":
		return len(sc.World.Articles) > 1 && s.Probes["books"]+s.Probes["internal-books"] > 0
	case "P22":
		return s.Probes["layered-runs"] > 0
	case "P23":
		return s.Probes["impossible-settings"] > 0
	case "P21":
		return struck() || sc.World.hostile()
	case "P18":
		return s.Switches > 0 && s.Runs > 1
	case "P19":
		return s.Probes["statistics"] > 0
	case "P20":
		return s.Exit["exit-0"] > 0 && (struck() || s.Switches > 0)
	}
	return false
}

// NontrivialRule says the same in words, for the evidence files.
var NontrivialRule = map[string]string{
	"P01": "the scheduler switched between tasks at least once and a finished book was judged",
	"P02": "a crash, disk fault or network fault struck while the program was running",
	"P03": "a failing, truncated or broken answer reached the program",
	"P04": "a fault struck, or the program reported failure",
	"P05": "a fault, crash or deletion struck and a later run of the same history succeeded",
	"P06": "a run was started on a cache filled by a successful run with the same inputs",
	"P07": "an expired cached file was replaced",
	"P08": "a file was added to a cache with a size limit",
	"P09": "a file was evicted",
	"P10": "a request was answered with HTTP 429",
	"P11": "requests were in flight at the same time",
	"P12": "a fault struck, tasks were interleaved, or the wikitext was hostile",
	"P13": "a fault struck, or names and wikitext of the scenario are unusual",
	"P14": "a run failed, crashed or panicked",
	"P15": "an image was looked up on its sources and the walk was judged",
	"P16": "external image commands ran besides pandoc",
	"P17": "a fault struck, or requests were in flight at the same time",
	"P18": "two processes shared the cache and their steps were interleaved",
	"P19": "combined statistics were judged",
	"P21": "a fault struck, or a server sent broken content",
	"P25": "a document with nested wikitext was compared with the model",
	"P27": "a book written by the program itself was judged",
	"P26": "the statistics of a document with nested wikitext were compared with the model",
	"P24": "a book of several articles with similar titles was judged",
	"P22": "a run took its settings from several places and was compared with a run on the same disk with the same settings from one file",
	"P23": "a run was started with settings that cannot be fulfilled",
	"P20": "a run succeeded after a fault or with interleaved tasks",
}

// Mix names the workload profiles of a property with their weights.
func Mix(prop string) map[string]int { return mix[prop] }
