package props

import (
	"errors"
	"math/rand"
	"strings"
	"testing"

	"verif/harness/kit"
)

func TestMain(m *testing.M) { kit.Main(m) }

// failer ends a case as failed.
type failer interface{ Fatalf(f string, a ...any) }

type sbuf = strings.Builder

var errInjected = errors.New("injected failure")

func bigRand(r kit.R) *rand.Rand { return rand.New(rand.NewSource(int64(r.U64() >> 1))) }
