// Overlaid into cmd/mapserver: the sample configuration is readable and leads to the configured database.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"time"

	"github.com/netsec-ethz/fpki/pkg/db"
	"github.com/netsec-ethz/fpki/pkg/db/mysql"
	"github.com/netsec-ethz/fpki/pkg/mapserver/config"
	"github.com/netsec-ethz/fpki/verifmc/core"
)

func sample(file string, env map[string]string) error {
	for _, k := range []string{"USER", "PASSWORD", "HOST", "PORT"} {
		if v, ok := env[k]; ok {
			os.Setenv("MYSQL_"+k, v)
		} else {
			os.Unsetenv("MYSQL_" + k)
		}
	}
	old := os.Args
	defer func() { os.Args = old }()
	os.Args = []string{"mapserver", "-createSampleConfig", file}
	if st := mainFunc(); st != 0 {
		return fmt.Errorf("status %d", st)
	}
	c, err := config.ReadConfigFromFile(file)
	if err != nil {
		return err
	}
	want := db.NewConfig(mysql.WithDefaults(), mysql.WithEnvironment(), mysql.WithLocalSocket("/var/run/mysqld/mysqld.sock"))
	if !reflect.DeepEqual(c.DBConfig, want) {
		return fmt.Errorf("configuration of the database %+v, expected %+v", c.DBConfig, want)
	}
	if len(c.CTLogServerURLs) == 0 || c.CertificatePemFile == "" || c.PrivateKeyPemFile == "" || c.HttpAPIPort <= 0 || c.CsvIngestionMaxRows == 0 {
		return fmt.Errorf("incomplete: %+v", c)
	}
	if c.UpdateTimer.Duration != 24*time.Hour || c.UpdateAt.String() != "03:00:00" {
		return fmt.Errorf("updates at %s every %s", c.UpdateAt, c.UpdateTimer)
	}
	return nil
}

func main() {
	core.Quiet()
	r := core.Start("C35", "exploration")
	r.Rule = "the sample configuration for all environments, to new, existing and impossible files"
	dir := os.Getenv("VERIF_WORK")
	if dir == "" {
		dir = os.TempDir()
	}
	file := filepath.Join(dir, fmt.Sprintf("sample-%d.json", os.Getpid()))
	defer os.Remove(file)
	for m := 0; m < 81; m++ {
		env := map[string]string{}
		for i, k := range []string{"USER", "PASSWORD", "HOST", "PORT"} {
			switch x := m / []int{1, 3, 9, 27}[i] % 3; x {
			case 1:
				env[k] = ""
			case 2:
				env[k] = map[string]string{"USER": "some_one", "PASSWORD": "p\"ä?&", "HOST": "db.example", "PORT": "3307"}[k]
			}
		}
		r.Case(fmt.Sprintf("sample %v", env), nil, func() error {
			os.Remove(file)
			if err := sample(file, env); err != nil {
				return err
			}
			return sample(file, env) // over the existing one
		})
		r.Distinct.Add(1)
	}
	r.Case("sample into a missing folder", nil, func() error {
		if err := sample(file+"-missing/x", nil); err == nil {
			return fmt.Errorf("no error")
		}
		return nil
	})
	os.Remove(file)
	r.Finish()
}
