package driver

import (
	"fmt"

	"symgo/exec"
)

// The property about the command, and the command's package.
const (
	cliProp = "C23"
	cliPkg  = target + "/cmd/jpath"
)

// modelCLI puts package env in the place of the files, JSON decoding and JSON encoding that the command uses.
func modelCLI(p *exec.Program) error {
	env, main := p.ByPath["verifharness/env"], p.ByPath[cliPkg]
	if env == nil || main == nil || main.Func("main") == nil {
		return fmt.Errorf("no main function in %s", cliPkg)
	}
	return p.Model(env, main, map[string]string{
		"verifharness/sym.Run":                   "Run",
		"verifharness/env.realMain":              "main",
		"os.Exit":                                "Exit",
		"os.Open":                                "Open",
		"os.OpenFile":                            "OpenFile",
		"os.ReadFile":                            "ReadFile",
		"(*os.File).Read":                        "Read",
		"(*os.File).Write":                       "Write",
		"(*os.File).WriteString":                 "WriteString",
		"(*os.File).Close":                       "Close",
		"(*os.File).Name":                        "Name",
		"(*os.File).Sync":                        "Sync",
		"encoding/json.NewDecoder":               "NewDecoder",
		"(*encoding/json.Decoder).Decode":        "Decode",
		"(*encoding/json.Decoder).More":          "More",
		"(*encoding/json.Decoder).InputOffset":   "InputOffset",
		"(*encoding/json.Decoder).UseNumber":     "UseNumber",
		"(*encoding/json.Decoder).Token":         "Token",
		"(*encoding/json.Decoder).Buffered":      "Buffered",
		"encoding/json.Unmarshal":                "Unmarshal",
		"encoding/json.Valid":                    "Valid",
		"encoding/json.NewEncoder":               "NewEncoder",
		"(*encoding/json.Encoder).SetIndent":     "SetIndent",
		"(*encoding/json.Encoder).SetEscapeHTML": "SetEscapeHTML",
		"(*encoding/json.Encoder).Encode":        "Encode",
		"encoding/json.Marshal":                  "Marshal",
		"encoding/json.MarshalIndent":            "MarshalIndent",
		"encoding/json.Indent":                   "Indent",
		"encoding/json.Compact":                  "Compact",
	}, map[string]string{
		"os.Args": "Args", "os.Stdin": "Stdin", "os.Stdout": "Stdout", "os.Stderr": "Stderr",
		"os.ErrNotExist": "io/fs.ErrNotExist", "os.ErrInvalid": "io/fs.ErrInvalid",
	})
}
