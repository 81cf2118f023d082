PROP="P30"
NEEDS="a command line with both -module and -modules"
BREAKS="the list given with -modules is dropped when -module is given too"
EDITS=[("lens/cmd/flags.go",'''	config.ModulesVersionFlag = *modulesVersionFlag
''','''	if config.ModuleVersionFlag == "" {
		config.ModulesVersionFlag = *modulesVersionFlag
	}
''')]
DEMO='''
package lens_test

import (
	"flag"
	"os"
	"testing"

	"github.com/PatchLens/go-update-lens/lens/cmd"
)

func TestDemo(t *testing.T) {
	args, set := os.Args, flag.CommandLine
	defer func() { os.Args, flag.CommandLine = args, set }()
	t.Setenv("GOMODCACHE", "/cache")
	flag.CommandLine = flag.NewFlagSet("modlens", flag.ContinueOnError)
	os.Args = []string{"modlens", "-project", "p", "-modules", "a@v1,b@v2", "-module", "c@v3"}
	c, err := cmd.ParseFlags(nil)
	if err != nil {
		t.Fatal(err)
	}
	if c.ModuleVersionFlag != "c@v3" || c.ModulesVersionFlag != "a@v1,b@v2" {
		t.Fatal("got", c.ModuleVersionFlag, c.ModulesVersionFlag)
	}
}
'''
