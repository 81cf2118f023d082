package lens

import (
	"embed"
	"errors"
	"go/build"
	"go/types"
	"strings"
)

// A short client template instead of the embedded one.
func vstub_embed__FS__ReadFile(f embed.FS, name string) ([]byte, error) {
	return []byte("package lens\n\nconst lensMonitorServerPort = 1\n\nvar src_" + strings.TrimSuffix(name, ".go") + " = 2\n"), nil
}

func vstub_go_S_build__Context__MatchFile(c *build.Context, dir, name string) (bool, error) {
	return strings.HasSuffix(name, ".go"), nil
}

type vNoImporter struct{}

func (vNoImporter) Import(path string) (*types.Package, error) {
	return nil, errors.New("no package " + path)
}

// Imported packages are not available to the type checker.
func vstub_go_S_importer__Default() types.Importer { return vNoImporter{} }
