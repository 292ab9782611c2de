T = "TLA+ specification checked with TLC; "
NOTE = {
 "default": (T + "scripts from the specification and random scripts run on the real stack in a synctest bubble, every recorded trace decided by TLC against Stack.tla",
             "the specification is explored exhaustively within small bounds; the implementation is bound to it by trace validation"),
 "C01": (T + "every transition of UBufCow.tla replayed on the real buffer, random histories validated against UBuf.tla",
         "all layouts and operations of small buffers exhaustively; larger ones sampled"),
 "C02": (T + "every transition of UBufCow.tla (families of snapshots) replayed on the real buffers, random histories validated against UBuf.tla",
         "all layouts and operations of small families exhaustively; larger ones sampled"),
 "C03": (T + "CowRace.tla explores every interleaving of the copy-on-write protocol; concurrent histories of the real code under the race detector validated against UBuf.tla per handle",
         "the protocol is explored exhaustively, the real code under sampled schedules with the race detector"),
 "C10": (T + "every behaviour of EpMC.tla and random histories with concurrent lanes run on the real stack, recorded traces decided by TLC against EpTrace.tla",
         "the life of endpoints is explored exhaustively within small bounds; the real code under sampled schedules in virtual time and with the race detector"),
 "C11": (T + "every behaviour of ConnMC.tla and random histories of connections run on the real stack, recorded traces decided by TLC against ConnTrace.tla",
         "the life of connections is explored exhaustively within small bounds; the real code under sampled schedules in virtual time"),
 "C12": (T + "every behaviour of EventsMC.tla (nested and concurrent operations) and random ones run on the real stack, recorded traces decided by TLC against EventsTrace.tla",
         "registries and publications explored exhaustively within small bounds; the real code under sampled schedules and with the race detector"),
 "C14": (T + "behaviours of HbMC.tla and random ones run on the real heartbeat processor in virtual time, recorded traces decided by TLC against HbTrace.tla",
         "the protocol is explored exhaustively within small bounds; the real code with exact virtual time"),
 "C15": (T + "StatMC.tla explores every interleaving of counting and reporting; concurrent histories of the real code (race detector too) decided by TLC against StatTrace.tla",
         "the counters are explored exhaustively within small bounds; the real code under sampled schedules"),
 "C07": (T + "behaviours of StackMC.tla and random ones run on two connected real stacks (in memory, TCP, Unix sockets), recorded traces decided by TLC against StackTrace.tla and PairTrace.tla",
         "the specification is explored exhaustively within small bounds; the real stacks under sampled schedules, with the race detector too"),
 "C13": (T + "behaviours of LifeMC.tla and random concurrent histories run on real TCP and Unix-socket transports, recorded traces decided by TLC against LifeTrace.tla",
         "the life of a transport is explored exhaustively within small bounds (liveness included); real sockets under sampled schedules"),
 "C16": (T + "every pipeline and script of PipeMC.tla and random ones run on the real stack, recorded traces decided by TLC against StackTrace.tla",
         "all pipelines of the kinds concerned exhaustively within small bounds; longer ones sampled"),
 "C17": (T + "every pipeline and script of PipeMC.tla and random ones run on the real stack, recorded traces decided by TLC against StackTrace.tla",
         "all pipelines of the kinds concerned exhaustively within small bounds; longer ones sampled"),
 "C18": (T + "every behaviour of RefMC.tla and random ones run on the real transports, recorded traces decided by TLC against RefTrace.tla; whole stacks over references against StackTrace.tla and PairTrace.tla",
         "the hand-over is explored exhaustively within small bounds; the real code under sampled schedules and with the race detector"),
 "C19": (T + "every behaviour of ListenMC.tla and random ones run on the real endpoint with gated listeners, recorded traces decided by TLC against ListenTrace.tla",
         "listeners and arrivals explored exhaustively within small bounds (liveness included); the real code under sampled schedules and with the race detector"),
 "C20": (T + "every behaviour of RetryMC.tla and random ones run on the real transports in virtual time, recorded traces decided by TLC against RetryTrace.tla",
         "attempts explored exhaustively within small bounds; the real code with exact virtual time"),
 "C21": (T + "histories of settings from ConfMC.tla laid over scripts for stacks, heartbeats, statistics, client and reference transports; recorded traces decided by TLC with the parameters Conf.tla derives from the settings; getters against ConfTrace.tla",
         "histories of settings explored exhaustively within small bounds; combinations with behaviour sampled"),
 "C22": (T + "behaviours of IsoMC.tla and scripts of all other drivers run at the same time by several stacks in one process, the trace of each decided by TLC against the specification of a single one",
         "two specified stacks side by side explored exhaustively within small bounds; the real ones under sampled combinations and schedules, with the race detector too"),
 "C23": (T + "behaviours of ChurnMC.tla and random histories repeated with ever new connections, endpoints and transports on the real stack (also real sockets); goroutines and reachable ended connections at rest (weak pointers after garbage collection) decided by TLC against ChurnTrace.tla",
         "holders of connections explored exhaustively within small bounds; the real ones under sampled histories of dozens of connections"),
}
