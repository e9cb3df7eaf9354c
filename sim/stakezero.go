package main

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	abci "github.com/cometbft/cometbft/abci/types"
	cmtproto "github.com/cometbft/cometbft/proto/tendermint/types"
	cmttypes "github.com/cometbft/cometbft/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	distrtypes "github.com/cosmos/cosmos-sdk/x/distribution/types"
	slashingtypes "github.com/cosmos/cosmos-sdk/x/slashing/types"
	stakingtypes "github.com/cosmos/cosmos-sdk/x/staking/types"
)

// An export for a restart at height zero pays all rewards out and keeps
// everybody's stake; a chain starts from it.

var c2227 = []string{"C22", "C27"}

// allowedVals: the validators an operator lets into the new chain (all others are
// to be jailed): bits from 8 up, in order of their operators; validator 0 always.
func (w *World) allowedVals(s *Snap, arg int) (allowed []string, jail map[string]bool) {
	if arg&4 == 0 || s.Stk == nil {
		return nil, nil
	}
	jail = map[string]bool{}
	for i, op := range sortedStr(s.Stk.Vals) {
		if arg>>(8+i)&1 == 1 || s.Stk.Vals[op].Cons == consAddr(0) {
			allowed = append(allowed, valOf(op))
		} else {
			jail[op] = true
		}
	}
	w.Stats.Inc("zero_height_exports_jailing", 1)
	return
}

// exportedSet: the validators listed in an export are the bonded ones.
func (w *World) exportedSet(h int64, what string, vs []cmttypes.GenesisValidator, s *Stk) {
	if s == nil {
		return
	}
	got := map[string]int64{}
	for _, v := range vs {
		got[hex.EncodeToString(v.Address)] = v.Power
	}
	if e, g := fmt.Sprint(s.bonded()), fmt.Sprint(got); e != g {
		w.viol(c2227, "export-set", "the %s of height %d lists the validators %s, bonded are %s", what, h, g, e)
	}
}

func (s *Stk) bonded() map[string]int64 {
	m := map[string]int64{}
	for _, v := range s.Vals {
		if v.St == valBonded {
			m[v.Cons] = v.power()
		}
	}
	return m
}

func (w *World) checkZero(n *Node, h int64, s *Snap, state []byte, cp cmtproto.ConsensusParams, evals []cmttypes.GenesisValidator, jail map[string]bool) {
	if !w.usesStake() || s.Stk == nil {
		return
	}
	w.Stats.Inc("zero_height_exports", 1)
	var m map[string]json.RawMessage
	if json.Unmarshal(state, &m) != nil {
		return
	}
	cdc := n.app.AppCodec()
	var bg banktypes.GenesisState
	var sg stakingtypes.GenesisState
	var dg distrtypes.GenesisState
	var lg slashingtypes.GenesisState
	for _, err := range []error{cdc.UnmarshalJSON(m["bank"], &bg), cdc.UnmarshalJSON(m["staking"], &sg), cdc.UnmarshalJSON(m["distribution"], &dg), cdc.UnmarshalJSON(m["slashing"], &lg)} {
		if err != nil {
			w.viol(c2227, "zero-garbage", "export of height %d for height zero: %v", h, err)
			return
		}
	}
	bal := Bals{}
	for _, b := range bg.Balances {
		bal[b.Address] = map[string]*big.Int{}
		for _, c := range b.Coins {
			bal[b.Address][c.Denom] = bi(c.Amount)
		}
	}
	at := func(a, d string) *big.Int { return mget(bal[a], d) }
	sup := map[string]*big.Int{}
	for _, c := range bg.Supply {
		sup[c.Denom] = bi(c.Amount)
	}
	var d []string
	for _, k := range unionS(sup, s.Sup) {
		if mget(sup, k).Cmp(s.sup(k)) != 0 {
			d = append(d, fmt.Sprintf("supply of %s: expected %s, is %s", k, s.sup(k), mget(sup, k)))
		}
	}
	// stakes
	exp := s.Stk.clone()
	for _, x := range []map[string][]UEnt{exp.UBD, exp.Red} {
		for k := range x {
			for i := range x[k] {
				x[k][i].H = 0
			}
		}
	}
	got := &Stk{Vals: map[string]*SVal{}, Dels: map[string]*big.Int{}, UBD: map[string][]UEnt{}, Red: map[string][]UEnt{}, Info: map[string]*SInfo{}, Wd: cloneMap(s.Stk.Wd), Pool: decCoins(dg.FeePool.CommunityPool)}
	for i := range sg.Validators {
		v := &sg.Validators[i]
		cb, err := v.GetConsAddr()
		must(err)
		got.Vals[accOfVal(v.OperatorAddress)] = &SVal{Op: accOfVal(v.OperatorAddress), Cons: hex.EncodeToString(cb), Tok: bi(v.Tokens), Sh: bd(v.DelegatorShares), St: int(v.Status), Jailed: v.Jailed,
			UnbT: v.UnbondingTime.UnixNano(), Rate: bd(v.Commission.Rate), Min: bi(v.MinSelfDelegation)}
	}
	for _, v := range sg.Validators {
		if x := s.Stk.Vals[accOfVal(v.OperatorAddress)]; v.UnbondingHeight != 0 && x != nil && (!jail[x.Op] || x.St != valBonded) && x.St != valBonded {
			d = append(d, fmt.Sprintf("validator %s unbonds since height %d", v.OperatorAddress, v.UnbondingHeight))
		}
	}
	for _, x := range sg.Delegations {
		got.Dels[x.DelegatorAddress+"|"+accOfVal(x.ValidatorAddress)] = bd(x.Shares)
	}
	for _, u := range sg.UnbondingDelegations {
		for _, e := range u.Entries {
			k := u.DelegatorAddress + "|" + accOfVal(u.ValidatorAddress)
			got.UBD[k] = append(got.UBD[k], UEnt{e.CreationHeight, e.CompletionTime.UnixNano(), bi(e.InitialBalance), bi(e.Balance)})
		}
	}
	for _, u := range sg.Redelegations {
		for _, e := range u.Entries {
			k := u.DelegatorAddress + "|" + accOfVal(u.ValidatorSrcAddress) + "|" + accOfVal(u.ValidatorDstAddress)
			got.Red[k] = append(got.Red[k], UEnt{e.CreationHeight, e.CompletionTime.UnixNano(), bi(e.InitialBalance), bd(e.SharesDst)})
		}
	}
	for _, x := range lg.SigningInfos {
		a, err := sdk.ConsAddressFromBech32(x.Address)
		must(err)
		i := x.ValidatorSigningInfo
		got.Info[hex.EncodeToString(a)] = &SInfo{i.StartHeight, i.IndexOffset, i.MissedBlocksCounter, i.JailedUntil.UnixNano(), i.Tombstoned}
		if i.StartHeight != 0 {
			d = append(d, fmt.Sprintf("signing %s starts at height %d", x.Address, i.StartHeight))
		}
	}
	if jail != nil {
		for op := range jail {
			exp.Vals[op].Jailed = true
		}
		sp, _ := w.stakeParams()
		in := exp.elect(int(sp.MaxValidators))
		for _, c := range in {
			v := exp.byCons(c)
			if v.St = valBonded; exp.Info[v.Cons] == nil {
				exp.Info[v.Cons] = &SInfo{Until: time.Unix(0, 0).UnixNano()}
			}
		}
		for _, v := range exp.Vals {
			if v.St == valBonded && !contains(in, v.Cons) {
				v.St = valUnbonding
				if g := got.Vals[v.Op]; g != nil {
					v.UnbT = g.UnbT // counted from no time at all
				}
			}
		}
	}
	w.exportedSet(h, "export for height zero", evals, exp)
	d = append(d, diffLines(exp.lines(), got.lines())...)
	for _, o := range dg.OutstandingRewards {
		if !o.OutstandingRewards.IsZero() {
			d = append(d, fmt.Sprintf("unpaid rewards of %s: %s", o.ValidatorAddress, o.OutstandingRewards))
		}
	}
	for _, o := range dg.ValidatorAccumulatedCommissions {
		if !o.Accumulated.Commission.IsZero() {
			d = append(d, fmt.Sprintf("unpaid commission of %s: %s", o.ValidatorAddress, o.Accumulated.Commission))
		}
	}
	// who is paid
	users := map[string]bool{}
	for _, a := range w.Accs {
		users[a.S] = true
	}
	for _, a := range unionS(bal, s.Bal) {
		if users[a] || a == distrAcc {
			continue
		}
		for _, k := range unionS(bal[a], s.Bal[a]) {
			e := s.bal(a, k)
			if jail != nil && k == stake && (a == bondedPool || a == notBondedPool) {
				for _, op := range sortedStr(exp.Vals) {
					if v := exp.Vals[op]; poolOf(v) != poolOf(s.Stk.Vals[op]) {
						if poolOf(v) == a {
							e = add(e, v.Tok)
						} else {
							e = sub(e, v.Tok)
						}
					}
				}
			}
			if at(a, k).Cmp(e) != 0 {
				d = append(d, fmt.Sprintf("balance %s of %s: expected %s, is %s", k, a, e, at(a, k)))
			}
		}
	}
	unpaid := map[string]*big.Int{}
	lo, hi := Bals{}, Bals{} // what each account must get
	put := func(a, k string, x, tol *big.Int) {
		if lo[a] == nil {
			lo[a], hi[a] = map[string]*big.Int{}, map[string]*big.Int{}
		}
		lo[a][k] = add(mget(lo[a], k), maxB(zero, sub(x, tol)))
		hi[a][k] = add(mget(hi[a], k), add(x, tol))
	}
	for _, op := range sortedStr(s.Stk.Vals) {
		v := s.Stk.Vals[op]
		for k, x := range v.Out {
			unpaid[k] = add(mget(unpaid, k), x)
		}
		for k, x := range v.Acc {
			put(s.Stk.Wd[op], k, quo(x, e18), zero)
		}
	}
	for _, key := range sortedStr(s.Stk.Dels) {
		p := strings.Split(key, "|")
		for k, x := range w.stk.due[key] {
			due := quo(quo(x, e18), e18)
			tol := add(bigI(3), quo(due, bigI(1000000000)))
			if l := w.stk.least[p[1]]; l != nil {
				tol = add(tol, quo(mul(due, bigI(30)), l))
			}
			put(s.Stk.Wd[p[0]], k, due, tol)
		}
	}
	for _, k := range unionS(unpaid, got.Pool) {
		sum := sub(mget(got.Pool, k), mget(s.Stk.Pool, k))
		for _, a := range w.Accs {
			x := sub(at(a.S, k), s.bal(a.S, k))
			sum = add(sum, mul(x, e18))
			if h == w.height() && (x.Cmp(mget(lo[a.S], k)) < 0 || x.Cmp(mget(hi[a.S], k)) > 0) {
				d = append(d, fmt.Sprintf("rewards of %s: %s%s, due were %s to %s", a.S, x, k, mget(lo[a.S], k), mget(hi[a.S], k)))
			}
		}
		if sum.Cmp(mget(unpaid, k)) != 0 {
			d = append(d, fmt.Sprintf("of %s%s unpaid rewards (in 1e-18) %s are accounted for", mget(unpaid, k), k, sum))
		}
	}
	if len(d) > 0 {
		w.viol(c2227, "zero-height", "export of height %d for height zero: %s", h, short(d))
		return
	}
	w.zeroFork(h, s, state, cp, exp, jail)
}

// zeroFork starts a chain at height one from the export and lets it run a little.
func (w *World) zeroFork(h int64, s *Snap, state []byte, cp cmtproto.ConsensusParams, exp *Stk, jail map[string]bool) {
	f := &Node{w: w, id: 160 + int(h%30), db: NewSimDB(w.Stats), cfg: NodeCfg{MapSeed: 99}}
	must(f.start())
	t := w.block(h).Time
	var vals []abci.ValidatorUpdate
	_, pan := f.call(func() {
		res, err := f.app.InitChain(&abci.RequestInitChain{ChainId: chainID, Time: t, InitialHeight: 1, ConsensusParams: &cp, AppStateBytes: state})
		must(err)
		vals = res.Validators
	})
	if pan != nil {
		w.viol(c2227, "zero-import", "no chain starts from the export of height %d for height zero: %v", h, pan)
		return
	}
	set := map[string]int64{}
	for _, u := range vals {
		set[updCons(u)] = u.Power
	}
	if jail == nil {
		w.sameSet(h, "an export for height zero", set)
	} else if e, g := fmt.Sprint(exp.bonded()), fmt.Sprint(set); e != g {
		w.viol(c2227, "restart-set", "a chain started from an export of height %d has the validators %s, allowed were %s", h, g, e)
	}
	var votes []abci.VoteInfo
	var prop []byte
	ks := sortedStr(set)
	sort.SliceStable(ks, func(i, j int) bool { return set[ks[i]] > set[ks[j]] })
	for _, c := range ks {
		a, _ := hex.DecodeString(c)
		if prop == nil {
			prop = a
		}
		votes = append(votes, abci.VoteInfo{Validator: abci.Validator{Address: a, Power: set[c]}, BlockIdFlag: cmtproto.BlockIDFlagCommit})
	}
	for x := int64(1); x <= 3; x++ {
		t = t.Add(time.Second)
		req := &abci.RequestFinalizeBlock{Height: x, Time: t, Hash: make([]byte, 32), ProposerAddress: prop, NextValidatorsHash: make([]byte, 32)}
		if x > 1 {
			req.DecidedLastCommit = abci.CommitInfo{Votes: votes}
		}
		var err error
		_, pan := f.call(func() {
			if _, err = f.app.FinalizeBlock(req); err == nil {
				_, err = f.app.Commit()
			}
		})
		if pan != nil || err != nil {
			w.viol(c2227, "zero-runs", "a chain started from the export of height %d for height zero fails at height %d: %v %v", h, x, pan, err)
			return
		}
		z, err := f.committed(0)
		if err != nil {
			w.viol(c2227, "zero-runs", "%v", err)
			return
		}
		w.checkStakeState(x, z)
		now := t.UnixNano()
		e := exp.clone()
		ripe := false
		for _, mm := range []map[string][]UEnt{e.UBD, e.Red} {
			for _, es := range mm {
				for _, y := range es {
					ripe = ripe || y.T <= now
				}
			}
		}
		for _, v := range e.Vals {
			ripe = ripe || v.St == valUnbonding && (v.UnbT <= now && !jail[v.Op] || jail[v.Op] && x >= h)
		}
		if !ripe {
			el, gl := e.lines(), z.Stk.lines()
			for _, y := range []map[string]string{el, gl} {
				for k := range y {
					if strings.HasPrefix(k, "signing ") {
						delete(y, k)
					}
				}
			}
			if d := diffLines(el, gl); len(d) > 0 {
				w.viol(c2227, "zero-stakes", "a chain started from the export of height %d for height zero, after block %d: %s", h, x, short(d))
				return
			}
		}
	}
	// everybody can draw what the new chain earned them
	_, pan = f.call(func() {
		ctx, _ := f.app.NewContextLegacy(true, cmtproto.Header{Height: 3, Time: t, ChainID: chainID}).CacheContext()
		ctx = ctx.WithBlockHeight(4)
		f.app.CrisisKeeper.AssertInvariants(ctx)
		vs, err := f.app.StakingKeeper.GetAllValidators(ctx)
		must(err)
		for _, v := range vs {
			op, err := sdk.ValAddressFromBech32(v.OperatorAddress)
			must(err)
			out, err := f.app.DistrKeeper.GetValidatorOutstandingRewardsCoins(ctx, op)
			must(err)
			sum, err := f.app.DistrKeeper.GetValidatorAccumulatedCommission(ctx, op)
			must(err)
			got := sum.Commission
			period, err := f.app.DistrKeeper.IncrementValidatorPeriod(ctx, v)
			must(err)
			ds, err := f.app.StakingKeeper.GetValidatorDelegations(ctx, op)
			must(err)
			for _, d := range ds {
				x, err := f.app.DistrKeeper.CalculateDelegationRewards(ctx, v, d, period)
				must(err)
				got = got.Add(x...)
			}
			for _, c := range out {
				if x := got.AmountOf(c.Denom); len(ds) > 0 && !v.Tokens.IsZero() && !near(bd(x), bd(c.Amount), add(e18, quo(mul(bd(c.Amount), bigI(30)), bi(v.Tokens)))) {
					w.viol(c2227, "zero-rewards", "a chain started from the export of height %d for height zero: validator %s earned %s, its delegators and commission can draw %s", h, v.OperatorAddress, c, x)
				}
			}
		}
	})
	if pan != nil {
		w.viol(c2227, "zero-runs", "a chain started from the export of height %d for height zero: %v", h, pan)
		return
	}
	w.Stats.Inc("zero_height_restarts", 1)
}

// sameSet: a chain started from an export has the validators the old one had told of.
func (w *World) sameSet(h int64, what string, got map[string]int64) {
	if !w.usesStake() {
		return
	}
	if e, g := fmt.Sprint(w.stk.sets[h+2]), fmt.Sprint(got); e != g {
		w.viol(c2227, "restart-set", "a chain started from %s at height %d has the validators %s, the old one had %s", what, h, g, e)
	}
}
