package world

// Requests to and answers of the command that runs histories of analyses
// (cmd/conc).

// ConcClassifier says how a classifier is made.
type ConcClassifier struct {
	Mode  string // "default", "user" or "merged"
	Text  string
	Noisy bool
	Of    int // if positive, the noisy version of classifier Of-1
}

// ConcConfig is a configuration, which is made once and shared by all jobs that
// name it.
type ConcConfig struct {
	Classifier int
	Caps       int // capability list, or -1
	Gran       int
	Omit       bool
	Disable    bool
}

// ConcJob is one analysis.
type ConcJob struct {
	Kind   string // "info", "counts", "stats", "graph", "classifier", "compare", "text:<mode>"
	Prog   int
	Config int
	Base   int // the program to compare with
}

// ConcPhase runs groups of jobs at the same time; the jobs of a group run one
// after the other.
type ConcPhase struct {
	Groups [][]int
	Reuse  bool  // jobs of the phase use the same loaded packages
	Delays []int // milliseconds before each group starts
}

// ConcRequest is a history.  Classifiers, capability lists and configurations
// are made once and shared by all jobs.
type ConcRequest struct {
	Programs    []Program
	Classifiers []ConcClassifier
	CapLists    []string
	Configs     []ConcConfig
	Jobs        []ConcJob
	Phases      []ConcPhase
}

// ConcAnswer has the result of every job of every phase.
type ConcAnswer struct {
	Error   string
	Results []map[int]ConcResult
}

// ConcResult is the result of an analysis.
type ConcResult struct {
	Text    string          // everything
	Set     map[string]bool // pairs, edges, or counts
	Changed string          // an argument that the analysis changed
	Panic   string
}
