package lens

import "os/exec"

// Commands are not run: each is handed to vExecRun, when set.
var (
	vExecRun func(c *exec.Cmd) error
	vEnviron = []string{"PATH=/bin"}
)

func vstub_os__Environ() []string { return append([]string{}, vEnviron...) }

func vstub_os_S_exec__Command(name string, arg ...string) *exec.Cmd {
	return &exec.Cmd{Path: name, Args: append([]string{name}, arg...)}
}

func vstub_os_S_exec__Cmd__Run(c *exec.Cmd) error {
	if vExecRun != nil {
		return vExecRun(c)
	}
	return nil
}
