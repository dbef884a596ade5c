package zz

import (
	"math/rand"
	"runtime"
	"time"
)

func jitter() {
	switch rand.Intn(4) {
	case 0:
		runtime.Gosched()
	case 1:
		time.Sleep(time.Duration(rand.Intn(200)) * time.Microsecond)
	}
}
