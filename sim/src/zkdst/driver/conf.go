package main

import "time"

const (
	quickT = 75 * time.Second
	deepT  = 30 * time.Minute
)

func init() {
	one := []string{"plain"}
	add := func(p string, fatal bool, rule string) {
		confs[p] = conf{bins: one, quick: quickT, deep: deepT, fatal: fatal, level: "exploration", rule: rule}
	}
	add("C01", true, "a case is one honest proof (kind, witness class, entropy behaviour, delivery path) judged by a verifier; distinct by the text of the case including the witness and the verdict path")
	add("C02", false, "a case is one forgery attempt (kind, attack, statement) presented to a verifier; the reference model knows that no witness was used; distinct by kind, attack and statement seed")
	add("C03", false, "a case is one honest proof presented for, or adapted to, another statement; distinct by kind, change and seed")
	add("C04", false, "a case is one altered message judged by decoder and verifier against the reference verifier; distinct by kind, alteration and seed")
	add("C05", true, "a case is one hostile byte string given to a decoder and, if it decodes, to the verifier; distinct by kind, shape and seed")
	add("C06", true, "a case is one value written to and read from a stream that fragments, blocks, ends or fails at a chosen byte; distinct by value, fault position and fragmentation")
	add("C07", true, "a case is one operation whose k-th entropy draw fails (or recovers afterwards); distinct by operation, draw, kind of failure and inputs")
	add("C08", false, "a case is one published proof, commitment, key or ciphertext whose masks an observer with the witness extracts and compares with the whole history of the run; distinct by statement and entropy seed")
	add("C09", true, "a case is one call made concurrently with others on shared arguments (or as one of the first users of the curve) and compared with what the reference says it returns alone; distinct by call and seed")
	add("C10", true, "a case is one range proof created or verified (honest, damaged, hostile, failing entropy) under one schedule of its workers and compared with other schedules; distinct by shape and seed")
	add("C11", true, "a case is one ledger node that receives, logs, loses, recovers and sums a set of transactions; distinct by transaction set, order, grouping and fault seed")
	add("C12", true, "a case is one value given to the range prover, or one forged range proof given to the verifier; distinct by value or attack and seed")
	add("C13", true, "a case is one message sent (or altered, or crafted by another implementation) and opened; distinct by length, alteration and seed")
	add("C14", true, "a case is one signature or key made, altered, crafted or given as hostile bytes, compared with the reference ECDSA; distinct by key, hash, alteration and seed")
	add("C18", false, "a case is one call with its arguments, compared with every repetition of it in the history, by other clients and in a second process that makes the calls in another order; distinct by call and arguments")
	add("C19", true, "a case is one row of a ledger judged by one node, or one audit; distinct by row, its kind, node, verdict and seed")
	add("C20", true, "a case is one transcript made by an independent implementation, or by the library under entropy that leads to a rare shape, and judged by library and reference verifiers; distinct by kind, statement, shape and seed")
	c := confs["C09"]
	c.bins = []string{"plain", "race", "plain", "race", "curve", "race", "plain", "curverace"}
	c.quick = 180 * time.Second
	confs["C09"] = c
}
