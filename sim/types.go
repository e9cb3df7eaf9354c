package main

import (
	"encoding/json"
	"fmt"
	"sort"
)

// ---- run description (what a replay file holds) ----

type C struct {
	D string `json:"d"`
	A string `json:"a"`
}

// Msg is a compact, replayable form of one sdk.Msg.
type Msg struct {
	T      string   `json:"t"`
	S      int      `json:"s"` // acting account (index), -1 = gov module account
	Pair   uint64   `json:"pair,omitempty"`
	Pool   uint64   `json:"pool,omitempty"`
	Order  uint64   `json:"order,omitempty"`
	Pairs  []uint64 `json:"pairs,omitempty"`
	Dir    int      `json:"dir,omitempty"` // 1 buy 2 sell
	Coins  []C      `json:"coins,omitempty"`
	Demand string   `json:"demand,omitempty"`
	Price  string   `json:"price,omitempty"`
	Min    string   `json:"min,omitempty"`
	Max    string   `json:"max,omitempty"`
	Amt    string   `json:"amt,omitempty"`
	Life   int64    `json:"life,omitempty"` // ns
	Base   string   `json:"base,omitempty"`
	Quote  string   `json:"quote,omitempty"`
	To     string   `json:"to,omitempty"` // "3" account, "addr:..." bech32
	Msgs   []Msg    `json:"msgs,omitempty"`
	Params *PJ      `json:"params,omitempty"`
	Prop   uint64   `json:"prop,omitempty"`
	Opt    int      `json:"opt,omitempty"`
	Kind   string   `json:"kind,omitempty"` // message kind for grants
	// interchain
	Chan  string `json:"chan,omitempty"`
	Seq   uint64 `json:"seq,omitempty"`
	Forge string `json:"forge,omitempty"`
	Rcv   string `json:"rcv,omitempty"` // "3" account, "raw:..." as it is
	TH    uint64 `json:"th,omitempty"`  // timeout height
	TT    uint64 `json:"tt,omitempty"`  // timeout time, ns
	PH    uint64 `json:"ph,omitempty"`  // proof height
	Val   int    `json:"val,omitempty"` // validator: its operator's account
	Dst   int    `json:"dst,omitempty"`
}

// PJ overrides dex parameters; nil/zero pointer fields keep the current value.
type PJ struct {
	Batch     *uint32 `json:"batch,omitempty"`
	Tick      *uint32 `json:"tick,omitempty"`
	FeeCol    *string `json:"feecol,omitempty"`
	DustCol   *string `json:"dustcol,omitempty"`
	MinSupply *string `json:"minsupply,omitempty"`
	PairFee   *[]C    `json:"pairfee,omitempty"`
	PoolFee   *[]C    `json:"poolfee,omitempty"`
	MinDep    *string `json:"mindep,omitempty"`
	Ratio     *string `json:"ratio,omitempty"`
	MMTicks   *uint32 `json:"mmticks,omitempty"`
	MMMax     *uint32 `json:"mmmax,omitempty"`
	Lifespan  *int64  `json:"lifespan,omitempty"`
	SwapFee   *string `json:"swapfee,omitempty"`
	WdFee     *string `json:"wdfee,omitempty"`
	DepGas    *uint64 `json:"depgas,omitempty"`
	WdGas     *uint64 `json:"wdgas,omitempty"`
	OrderGas  *uint64 `json:"ordergas,omitempty"`
	MaxPools  *uint32 `json:"maxpools,omitempty"`
}

type NodeCfg struct {
	Pruning  string `json:"pruning,omitempty"` // nothing | everything | k,i
	Cache    int    `json:"cache,omitempty"`
	NoFast   bool   `json:"nofast,omitempty"`
	Inter    bool   `json:"inter,omitempty"`
	InvCheck uint   `json:"inv,omitempty"`
	Trace    bool   `json:"trace,omitempty"` // store tracing (fine grained interleaving)
	Debug    bool   `json:"debug,omitempty"` // baseapp trace flag
	MinGas   string `json:"mingas,omitempty"`
	Skew     int64  `json:"skew,omitempty"` // clock skew, ns
	MapSeed  uint64 `json:"mapseed,omitempty"`
}

type Config struct {
	Seed     uint64    `json:"seed"`
	Profile  string    `json:"profile"`
	NAcc     int       `json:"nacc"`
	Denoms   []string  `json:"denoms"`
	Bal      []string  `json:"bal"`               // per account: amount of every denom
	Vest     []int     `json:"vest,omitempty"`    // accounts that are vesting (kind = index order)
	VestPct  int       `json:"vestpct,omitempty"` // share locked
	Params   PJ        `json:"params"`
	LastPair uint64    `json:"lastpair,omitempty"`
	LastPool uint64    `json:"lastpool,omitempty"`
	Nodes    []NodeCfg `json:"nodes"`
	BlockGas int64     `json:"blockgas,omitempty"`
	Votes    int64     `json:"votes,omitempty"` // gov voting period, s
	InitH    int64     `json:"inith,omitempty"`
	Vals     int       `json:"vals,omitempty"` // validators of their own at genesis
	Stake    *StakeCfg `json:"stake,omitempty"`
}

type StakeCfg struct {
	Unbonding  int64    `json:"unbonding"` // s
	MaxVals    uint32   `json:"maxvals"`
	MaxEntries uint32   `json:"maxentries"`
	Window     int64    `json:"window"`
	MinSigned  string   `json:"minsigned"`
	JailTime   int64    `json:"jailtime"` // s
	SlashDown  string   `json:"slashdown"`
	SlashSign  string   `json:"slashsign"`
	Bonds      []string `json:"bonds"`
	Comm       []string `json:"comm"`
}

// Evid is evidence that a validator signed two blocks some heights ago.
type Evid struct {
	Val  int   `json:"val"`
	Back int64 `json:"back"`
}

type Ref struct {
	ID   int    `json:"id"`
	Mode string `json:"m,omitempty"` // "" as signed | "flip" | "raw"
	Arg  int    `json:"arg,omitempty"`
}

type Int struct { // something served in the middle of FinalizeBlock
	At   int    `json:"at"` // n-th traced store operation
	What string `json:"w"`  // query | sim
	Arg  int    `json:"a"`
	Tx   int    `json:"tx,omitempty"`
}

type Step struct {
	K string `json:"k"`
	// tx
	ID      int    `json:"id,omitempty"`
	Signers []int  `json:"signers,omitempty"`
	Msgs    []Msg  `json:"msgs,omitempty"`
	Fee     []C    `json:"fee,omitempty"`
	Gas     uint64 `json:"gas,omitempty"`
	Seq     int    `json:"seq,omitempty"`     // offset to the right sequence
	Corrupt string `json:"corrupt,omitempty"` // sig | chain | accnum | signer | none
	// block
	Txs    []Ref  `json:"txs,omitempty"`
	DT     int64  `json:"dt,omitempty"`
	Absent []int  `json:"absent,omitempty"` // validators that did not sign
	Evid   []Evid `json:"evid,omitempty"`
	// node steps
	N    int    `json:"n,omitempty"`
	Kill string `json:"kill,omitempty"` // write | after | err | trace | precommit
	At   int    `json:"at,omitempty"`
	Keep int    `json:"keep,omitempty"` // unsynced units surviving; -1 all
	Ints []Int  `json:"ints,omitempty"`
	H    int64  `json:"h,omitempty"` // relative height for queries/rollback/export
	Arg  int    `json:"arg,omitempty"`
	Ns   int64  `json:"ns,omitempty"`
}

func (s Step) String() string { b, _ := json.Marshal(s); return string(b) }

type Replay struct {
	Property string   `json:"property,omitempty"`
	Key      string   `json:"key,omitempty"`
	Message  string   `json:"message,omitempty"`
	Seed     uint64   `json:"seed"`
	Warmup   []uint64 `json:"warmup,omitempty"` // seeds run before in the same process
	Profile  string   `json:"profile"`
	Config   Config   `json:"config"`
	Steps    []Step   `json:"steps"`
}

type Violation struct {
	Props  []string `json:"props"`
	Key    string   `json:"key"`
	Msg    string   `json:"msg"`
	Step   int      `json:"step"`
	Height int64    `json:"height"`
}

func (v Violation) Has(p string) bool {
	for _, x := range v.Props {
		if x == p {
			return true
		}
	}
	return false
}

// ---- statistics ----

type Stats struct{ M map[string]int64 }

func NewStats() *Stats { return &Stats{M: map[string]int64{}} }
func (s *Stats) Inc(k string, n int) {
	if n != 0 {
		s.M[k] += int64(n)
	}
}
func (s *Stats) Add(o *Stats) {
	for k, v := range o.M {
		s.M[k] += v
	}
}
func (s *Stats) Keys() []string {
	ks := make([]string, 0, len(s.M))
	for k := range s.M {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func assert(b bool, f string, a ...interface{}) {
	if !b {
		panic(fmt.Sprintf("simulator bug: "+f, a...))
	}
}
