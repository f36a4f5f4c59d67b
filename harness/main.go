// Command aqlverif drives the aql packages and records what they do, or runs
// cases that the specification has worked out and compares the answers.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"

	"github.com/flowchartsman/aql/sampler"
)

// Out collects events (for the specification) and, line by line next to them,
// what a person needs to reproduce them.
type Out struct {
	n    int
	ev   *bufio.Writer
	side *bufio.Writer
	evF  *os.File
	sdF  *os.File
	last *os.File
}

func newOut(path string) *Out {
	o := &Out{}
	var err error
	if o.evF, err = os.Create(path); err != nil {
		fatal(err)
	}
	if o.sdF, err = os.Create(path + ".side"); err != nil {
		fatal(err)
	}
	if o.last, err = os.Create(path + ".last"); err != nil {
		fatal(err)
	}
	o.ev, o.side = bufio.NewWriterSize(o.evF, 1<<20), bufio.NewWriterSize(o.sdF, 1<<20)
	return o
}

// mark notes what is about to be run, in case it does not come back.
func (o *Out) mark(what ...string) {
	b, _ := json.Marshal(what)
	o.last.WriteAt(append(b, '\n'), 0)
	o.last.Truncate(int64(len(b) + 1))
}

func (o *Out) add(event any, side any) {
	b, err := json.Marshal(event)
	if err != nil {
		fatal(err)
	}
	o.ev.Write(b)
	o.ev.WriteByte('\n')
	b, err = json.Marshal(side)
	if err != nil {
		fatal(err)
	}
	o.side.Write(b)
	o.side.WriteByte('\n')
	o.n++
}

func (o *Out) close() {
	o.ev.Flush()
	o.side.Flush()
	o.evF.Close()
	o.sdF.Close()
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "aqlverif:", err)
	os.Exit(3)
}

// drivers are those that only some builds have.
var drivers = map[string]func(*Gen, *Out, int, string){}

func main() {
	prop := flag.String("prop", "", "property to exercise")
	seed := flag.Int64("seed", 1, "random seed")
	n := flag.Int("n", 1000, "number of events")
	out := flag.String("out", "", "output file")
	in := flag.String("in", "", "input file")
	tool := flag.String("tool", "", "the command-line tool")
	flag.Parse()
	g := newGen(*seed*1000003 + int64(len(*prop)) + int64((*prop)[1])*31 + int64((*prop)[2])*37)
	switch flag.Arg(0) {
	case "drive":
		o := newOut(*out)
		switch *prop {
		case "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09":
			driveMatch(g, o, *prop, *n)
		case "C10", "C11", "C12":
			driveParse(g, o, *prop, *n)
		case "C13", "C14":
			driveVisit(g, o, *prop, *n)
		case "C15":
			driveAdvice(g, o, *n)
		case "C16":
			driveStats(g, o, *n)
		case "C18":
			driveTotal(g, o, *n)
		case "C19":
			driveShown(g, o, *n)
		case "C20", "C21":
			driveSampler(g, o, *prop, *n)
		case "C22":
			driveFields(g, o, *n)
		case "C17":
			driveConc(g, o, *n)
		case "C17stress":
			driveStress(g, o, *n)
		case "C24":
			driveCLI(g, o, *n, *tool)
		case "C30":
			drivePages(g, o, *n, *tool)
		case "C29":
			driveTold(g, o, *n)
		case "C28":
			driveBridge(g, o, *n, *tool)
		case "C26":
			drivePrinted(g, o, *n)
		case "C25":
			driveHanded(g, o, *n)
		default:
			drive, ok := drivers[*prop]
			if !ok {
				fatal(fmt.Errorf("no driver for %q", *prop))
			}
			drive(g, o, *n, *tool)
		}
		o.close()
	case "replay":
		o := newOut(*out)
		replay(o, *prop, *in, *tool)
		o.close()
	case "one":
		one(*prop, *in)
	default:
		fatal(fmt.Errorf("unknown command %q", flag.Arg(0)))
	}
}

// one runs the input noted in a .last file, to see whether it comes back.
func one(prop, path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal(err)
	}
	var what []string
	if err := json.Unmarshal(b, &what); err != nil || len(what) == 0 {
		fatal(fmt.Errorf("nothing to run in %s", path))
	}
	switch prop {
	case "C20", "C21", "C22":
		for _, d := range []int{-1, 0, 1, 2, 3, 4, 10} {
			sampleOnce(sampler.New(d), what[0])
		}
	case "C19":
		g := newGen(1)
		o := newOut(os.DevNull)
		driveShown(g, o, 1)
	default:
		m, _, _ := newMatcher(what[0])
		parse(what[0])
		if m != nil && len(what) > 1 {
			match(m, []byte(what[1]))
			readStats(m)
		}
	}
}
