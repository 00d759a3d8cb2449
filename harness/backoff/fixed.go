package backoff

//verif:override jitter

// without randomness and away from round times, for harnesses of packages that wait
func jitter(millis int) int { return millis - millis/10 }
