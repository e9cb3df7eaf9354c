package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"cosmossdk.io/math"
	storetypes "cosmossdk.io/store/types"
	abci "github.com/cometbft/cometbft/abci/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	feetypes "github.com/cosmos/ibc-go/v8/modules/apps/29-fee/types"
	transfertypes "github.com/cosmos/ibc-go/v8/modules/apps/transfer/types"
	clienttypes "github.com/cosmos/ibc-go/v8/modules/core/02-client/types"
	channeltypes "github.com/cosmos/ibc-go/v8/modules/core/04-channel/types"
	host "github.com/cosmos/ibc-go/v8/modules/core/24-host"

	"defund/app"
)

// Interchain transfers. The chain talks to itself over the loopback
// connection every chain has: both ends of a channel are ports of one
// application, the simulated relayers carry packets, acknowledgements and
// timeouts between them, and lose, delay, repeat, reorder and forge them.

const (
	tport    = transfertypes.PortID
	loopConn = "connection-localhost"
	ics20    = "ics20-1"
)

var (
	feeModAddr = authtypes.NewModuleAddress(feetypes.ModuleName).String()
	goodProof  = []byte{1}
	okAck      = []byte(`{"result":"AQ=="}`)
)

type ibcPkt struct {
	P   channeltypes.Packet
	Ack []byte
	Src string
	Seq uint64
}

func pktKey(ch string, seq uint64) string { return ch + "/" + strconv.FormatUint(seq, 10) }

// readIBC reads the stores of the interchain modules (without the clients,
// whose state follows every block).
func readIBC(a *app.App, ms storetypes.MultiStore) map[string]string {
	m := map[string]string{}
	for _, n := range []string{"ibc", "transfer", "feeibc"} {
		it := ms.GetKVStore(a.GetKey(n)).Iterator(nil, nil)
		for ; it.Valid(); it.Next() {
			k := string(it.Key())
			if n == "ibc" && strings.HasPrefix(k, "clients/") {
				continue
			}
			m[n+"/"+k] = string(it.Value())
		}
		it.Close()
	}
	return m
}

func ibcK(k []byte) string { return "ibc/" + string(k) }
func trK(k []byte) string  { return "transfer/" + string(k) }
func feeK(k []byte) string { return "feeibc/" + string(k) }

func attrs(e abci.Event) map[string]string {
	m := map[string]string{}
	for _, a := range e.Attributes {
		m[a.Key] = a.Value
	}
	return m
}

// notePackets remembers what a relayer would: packets sent and acknowledgements written.
func (w *World) notePackets(b *Block) {
	if !w.obs.usesIBC {
		return
	}
	if w.pkts == nil {
		w.pkts = map[string]*ibcPkt{}
	}
	for _, r := range b.Results {
		if r.Code != 0 {
			continue
		}
		for _, e := range r.Events {
			if e.Type != "send_packet" && e.Type != "write_acknowledgement" {
				continue
			}
			m := attrs(e)
			seq, _ := strconv.ParseUint(m["packet_sequence"], 10, 64)
			k := pktKey(m["packet_src_channel"], seq)
			if e.Type == "send_packet" {
				data, _ := hex.DecodeString(m["packet_data_hex"])
				th, _ := clienttypes.ParseHeight(m["packet_timeout_height"])
				tt, _ := strconv.ParseUint(m["packet_timeout_timestamp"], 10, 64)
				w.pkts[k] = &ibcPkt{P: channeltypes.NewPacket(data, seq, m["packet_src_port"], m["packet_src_channel"], m["packet_dst_port"], m["packet_dst_channel"], th, tt), Src: m["packet_src_channel"], Seq: seq}
				w.Stats.Inc("ibc_packets", 1)
			} else if p := w.pkts[k]; p != nil {
				p.Ack, _ = hex.DecodeString(m["packet_ack_hex"])
			}
		}
	}
}

func (w *World) packet(m Msg) (channeltypes.Packet, []byte) {
	if p := w.pkts[pktKey(m.Chan, m.Seq)]; p != nil {
		return p.P, p.Ack
	}
	return channeltypes.NewPacket([]byte("{}"), maxU(m.Seq, 1), tport, m.Chan, tport, "channel-9", clienttypes.NewHeight(1, 1000000), 0), nil
}

func revH(h uint64) clienttypes.Height {
	if h == 0 {
		return clienttypes.ZeroHeight()
	}
	return clienttypes.NewHeight(1, h)
}

func (w *World) rcv(s string) string {
	if strings.HasPrefix(s, "raw:") {
		return s[4:]
	}
	return w.toAddr(s).String()
}

// editData changes one field of packet data.
func editData(p *channeltypes.Packet, f func(d *transfertypes.FungibleTokenPacketData)) {
	var d transfertypes.FungibleTokenPacketData
	if transfertypes.ModuleCdc.UnmarshalJSON(p.Data, &d) == nil {
		f(&d)
		p.Data = d.GetBytes()
	}
}

func (w *World) forge(p *channeltypes.Packet, m Msg) (proof []byte) {
	proof = goodProof
	switch m.Forge {
	case "amt":
		editData(p, func(d *transfertypes.FungibleTokenPacketData) { d.Amount += "0" })
	case "rcv":
		editData(p, func(d *transfertypes.FungibleTokenPacketData) { d.Receiver = w.accS(m.S) })
	case "denom":
		editData(p, func(d *transfertypes.FungibleTokenPacketData) { d.Denom = "stake" })
	case "snd":
		editData(p, func(d *transfertypes.FungibleTokenPacketData) { d.Sender = w.accS(m.S) })
	case "proof":
		proof = []byte{2}
	case "dst":
		p.DestinationChannel = m.Quote
	case "src":
		p.SourceChannel = m.Quote
	case "tmo":
		p.TimeoutHeight, p.TimeoutTimestamp = clienttypes.NewHeight(1, 1), 0
	case "seq":
		p.Sequence += 1000
	}
	return
}

func (w *World) fee(m Msg) feetypes.Fee {
	one := func(i int) sdk.Coins {
		if i >= len(m.Coins) {
			return nil
		}
		x := mkCoins(m.Coins[i : i+1])
		if x[0].Amount.IsZero() {
			return nil
		}
		return x
	}
	return feetypes.NewFee(one(0), one(1), one(2))
}

func (w *World) ibcMsg(m Msg) sdk.Msg {
	s := w.accS(m.S)
	ph := revH(m.PH)
	if m.PH == 0 {
		ph = clienttypes.NewHeight(1, 1)
	}
	proof := goodProof
	if m.Forge == "proof" {
		proof = []byte{2}
	}
	switch m.T {
	case "chinit":
		o := channeltypes.UNORDERED
		if m.Opt == 1 {
			o = channeltypes.ORDERED
		}
		return channeltypes.NewMsgChannelOpenInit(tport, m.Base, o, []string{loopConn}, tport, s)
	case "chtry":
		return channeltypes.NewMsgChannelOpenTry(tport, "", channeltypes.UNORDERED, []string{loopConn}, tport, m.Chan, m.Base, proof, ph, s)
	case "chack":
		return channeltypes.NewMsgChannelOpenAck(tport, m.Chan, m.Quote, m.Base, proof, ph, s)
	case "chconf":
		return channeltypes.NewMsgChannelOpenConfirm(tport, m.Chan, proof, ph, s)
	case "chclose":
		return channeltypes.NewMsgChannelCloseInit(tport, m.Chan, s)
	case "xfer":
		return transfertypes.NewMsgTransfer(tport, m.Chan, one(m.Coins), s, w.rcv(m.Rcv), revH(m.TH), m.TT, m.Kind)
	case "recv":
		p, _ := w.packet(m)
		pr := w.forge(&p, m)
		return channeltypes.NewMsgRecvPacket(p, pr, ph, s)
	case "ack":
		p, a := w.packet(m)
		pr := w.forge(&p, m)
		switch {
		case m.Forge == "ok":
			a = okAck
		case m.Forge == "err":
			a = []byte(`{"error":"ABCI code: 1: error handling packet: see events for details"}`)
		case m.Forge == "okfee":
			a = feetypes.NewIncentivizedAcknowledgement(s, okAck, true).Acknowledgement()
		case m.Forge == "payee": // pay me
			a = feetypes.NewIncentivizedAcknowledgement(s, okAck, true).Acknowledgement()
		}
		if len(a) == 0 {
			a = okAck
		}
		return channeltypes.NewMsgAcknowledgement(p, a, pr, ph, s)
	case "tmo":
		p, _ := w.packet(m)
		pr := w.forge(&p, m)
		return channeltypes.NewMsgTimeout(p, 1, pr, ph, s)
	case "fee":
		return feetypes.NewMsgPayPacketFee(w.fee(m), tport, m.Chan, s, nil)
	case "feea":
		return feetypes.NewMsgPayPacketFeeAsync(channeltypes.NewPacketID(tport, m.Chan, m.Seq), feetypes.NewPacketFee(w.fee(m), s, nil))
	case "payee":
		return feetypes.NewMsgRegisterPayee(tport, m.Chan, s, w.toAddr(m.To).String())
	case "cpayee":
		return feetypes.NewMsgRegisterCounterpartyPayee(tport, m.Chan, s, w.rcv(m.To))
	}
	return nil
}

func ibcKind(k string) bool {
	switch k {
	case "chinit", "chtry", "chack", "chconf", "chclose", "xfer", "recv", "ack", "tmo", "fee", "feea", "payee", "cpayee":
		return true
	}
	return false
}

func ibcSigner(m sdk.Msg) string {
	switch m := m.(type) {
	case *channeltypes.MsgChannelOpenInit:
		return m.Signer
	case *channeltypes.MsgChannelOpenTry:
		return m.Signer
	case *channeltypes.MsgChannelOpenAck:
		return m.Signer
	case *channeltypes.MsgChannelOpenConfirm:
		return m.Signer
	case *channeltypes.MsgChannelCloseInit:
		return m.Signer
	case *channeltypes.MsgRecvPacket:
		return m.Signer
	case *channeltypes.MsgAcknowledgement:
		return m.Signer
	case *channeltypes.MsgTimeout:
		return m.Signer
	case *transfertypes.MsgTransfer:
		return m.Sender
	case *feetypes.MsgPayPacketFee:
		return m.Signer
	case *feetypes.MsgPayPacketFeeAsync:
		return m.PacketFee.RefundAddress
	case *feetypes.MsgRegisterPayee:
		return m.Relayer
	case *feetypes.MsgRegisterCounterpartyPayee:
		return m.Relayer
	}
	return ""
}

// ---- the model ----

func (s *Snap) ch(id string) (c channeltypes.Channel, ok bool) {
	v, ok := s.IBC[ibcK(host.ChannelKey(tport, id))]
	if ok {
		must(c.Unmarshal([]byte(v)))
	}
	return
}
func (s *Snap) setCh(id string, c channeltypes.Channel) {
	bz, err := c.Marshal()
	must(err)
	s.IBC[ibcK(host.ChannelKey(tport, id))] = string(bz)
}

func u64be(x uint64) string { return string(sdk.Uint64ToBigEndian(x)) }
func beU64(s string) uint64 {
	if len(s) != 8 {
		return 0
	}
	return sdk.BigEndianToUint64([]byte(s))
}

func (s *Snap) feeEnabled(ch string) bool {
	return s.IBC[feeK(feetypes.KeyFeeEnabled(tport, ch))] != ""
}

func (s *Snap) newChannel(c channeltypes.Channel, fee bool) {
	const nk = "ibc/nextChannelSequence"
	n := beU64(s.IBC[nk])
	s.IBC[nk] = u64be(n + 1)
	id := fmt.Sprintf("channel-%d", n)
	s.setCh(id, c)
	for _, k := range [][]byte{host.NextSequenceSendKey(tport, id), host.NextSequenceRecvKey(tport, id), host.NextSequenceAckKey(tport, id)} {
		s.IBC[ibcK(k)] = u64be(1)
	}
	if fee {
		s.IBC[feeK(feetypes.KeyFeeEnabled(tport, id))] = "\x01"
	}
}

func feeVersion(app string) string {
	bz, err := feetypes.ModuleCdc.MarshalJSON(&feetypes.Metadata{FeeVersion: feetypes.Version, AppVersion: app})
	must(err)
	return string(bz)
}

// negotiate: the version a channel end gets, or why it gets none.
func negotiate(v string, blankOK bool) (out string, fee bool, bad string) {
	blank := strings.TrimSpace(v) == ""
	if blank && blankOK {
		return feeVersion(ics20), true, ""
	}
	md, err := feetypes.MetadataFromVersion(v)
	if err != nil {
		if v != ics20 {
			return "", false, "wrong transfer version"
		}
		return ics20, false, ""
	}
	if md.FeeVersion != feetypes.Version {
		return "", false, "wrong fee version"
	}
	if md.AppVersion != ics20 && !(blankOK && strings.TrimSpace(md.AppVersion) == "") {
		return "", false, "wrong transfer version"
	}
	return feeVersion(ics20), true, ""
}

func (s *Snap) sameCh(id string, want channeltypes.Channel) bool {
	bz, err := want.Marshal()
	must(err)
	return s.IBC[ibcK(host.ChannelKey(tport, id))] == string(bz)
}

func elapsed(h uint64, t uint64, th clienttypes.Height, tt uint64) bool {
	return !th.IsZero() && clienttypes.NewHeight(1, h).GTE(th) || tt != 0 && t >= tt
}

func (w *World) escrowed(s *Snap, d string, x *big.Int) {
	k := trK([]byte("totalEscrowForDenom/" + d))
	cur := zero
	if v, ok := s.IBC[k]; ok {
		var ip sdk.IntProto
		must(ip.Unmarshal([]byte(v)))
		cur = bi(ip.Int)
	}
	cur = add(cur, x)
	if cur.Sign() == 0 {
		delete(s.IBC, k)
		return
	}
	bz, err := (&sdk.IntProto{Int: math.NewIntFromBigInt(cur)}).Marshal()
	must(err)
	s.IBC[k] = string(bz)
}

func escrowAddr(ch string) string { return transfertypes.GetEscrowAddress(tport, ch).String() }

// coinOf: what a full path is called on this chain.
func coinOf(path string) string {
	t := transfertypes.ParseDenomTrace(path)
	if t.Path == "" {
		return path
	}
	return t.IBCDenom()
}

func trPrefix(ch string) string { return tport + "/" + ch + "/" }

func (w *World) putBack(s *Snap, p channeltypes.Packet) string {
	var d transfertypes.FungibleTokenPacketData
	if err := transfertypes.ModuleCdc.UnmarshalJSON(p.Data, &d); err != nil {
		return "bad packet data"
	}
	amt := bigS(d.Amount)
	c := coinOf(d.Denom)
	if strings.HasPrefix(d.Denom, trPrefix(p.SourceChannel)) {
		s.addSup(c, amt)
		s.addBal(d.Sender, c, amt)
		return ""
	}
	if !w.send(s, escrowAddr(p.SourceChannel), d.Sender, []Coin{{c, amt}}) {
		return "escrow is short"
	}
	w.escrowed(s, c, neg(amt))
	return ""
}

// deliver is the receiving application's part: true if the packet is taken.
func (w *World) deliver(s *Snap, p channeltypes.Packet) bool {
	var d transfertypes.FungibleTokenPacketData
	if transfertypes.ModuleCdc.UnmarshalJSON(p.Data, &d) != nil || d.ValidateBasic() != nil {
		return false
	}
	r, err := sdk.AccAddressFromBech32(d.Receiver)
	if err != nil || blockedAddr[r.String()] {
		return false
	}
	amt := bigS(d.Amount)
	if home := trPrefix(p.SourceChannel); strings.HasPrefix(d.Denom, home) {
		c := coinOf(d.Denom[len(home):])
		if !w.send(s, escrowAddr(p.DestinationChannel), r.String(), []Coin{{c, amt}}) {
			return false
		}
		w.escrowed(s, c, neg(amt))
		return true
	}
	t := transfertypes.ParseDenomTrace(trPrefix(p.DestinationChannel) + d.Denom)
	bz, err := t.Marshal()
	must(err)
	s.IBC[trK(append([]byte{2}, t.Hash()...))] = string(bz)
	s.addSup(t.IBCDenom(), amt)
	s.addBal(r.String(), t.IBCDenom(), amt)
	return true
}

func (w *World) fees(s *Snap, ch string, seq uint64) (string, []feetypes.PacketFee) {
	k := feeK(feetypes.KeyFeesInEscrow(channeltypes.NewPacketID(tport, ch, seq)))
	v, ok := s.IBC[k]
	if !ok {
		return k, nil
	}
	var f feetypes.PacketFees
	must(f.Unmarshal([]byte(v)))
	return k, f.PacketFees
}

func (w *World) payFee(s *Snap, to, refund string, c sdk.Coins) {
	if blockedAddr[to] {
		to = refund
	}
	for _, x := range c {
		s.addBal(feeModAddr, x.Denom, neg(bi(x.Amount)))
		s.addBal(to, x.Denom, bi(x.Amount))
	}
}

func (w *World) payeeOf(s *Snap, relayer, ch string) string {
	if v, ok := s.IBC[feeK(feetypes.KeyPayee(relayer, ch))]; ok {
		return v
	}
	return relayer
}

func (w *World) escrowFee(s *Snap, ch string, seq uint64, pf feetypes.PacketFee) string {
	if !w.send(s, pf.RefundAddress, feeModAddr, coins(pf.Fee.Total())) {
		return "cannot pay the relayers' fee"
	}
	k, old := w.fees(s, ch, seq)
	n := feetypes.NewPacketFees(append([]feetypes.PacketFee{pf}, old...))
	bz, err := n.Marshal()
	must(err)
	s.IBC[k] = string(bz)
	return ""
}

// applyIBC applies one interchain message; handled is false for others.
func (w *World) applyIBC(s, obs *Snap, m sdk.Msg, o *mOut) (why string, handled bool) {
	if ibcSigner(m) == "" {
		return "", false
	}
	if s.IBC == nil {
		o.opaque, o.soft = true, true
		return "", true
	}
	return w.applyIBC1(s, obs, m, o), true
}

func (w *World) applyIBC1(s, obs *Snap, m sdk.Msg, o *mOut) string {
	now := uint64(s.Time.UnixNano())
	H := uint64(s.Height)
	switch m := m.(type) {
	case *channeltypes.MsgChannelOpenInit:
		o.seen = append(o.seen, "chinit")
		if m.Channel.Ordering != channeltypes.UNORDERED {
			return "transfer channels are unordered"
		}
		v, fee, bad := negotiate(m.Channel.Version, true)
		if bad != "" {
			return bad
		}
		s.newChannel(channeltypes.NewChannel(channeltypes.INIT, channeltypes.UNORDERED, channeltypes.NewCounterparty(tport, ""), []string{loopConn}, v), fee)
		return ""

	case *channeltypes.MsgChannelOpenTry:
		o.seen = append(o.seen, "chtry")
		cp := m.Channel.Counterparty.ChannelId
		if !bytes.Equal(m.ProofInit, goodProof) {
			return "bad proof"
		}
		if !s.sameCh(cp, channeltypes.NewChannel(channeltypes.INIT, channeltypes.UNORDERED, channeltypes.NewCounterparty(tport, ""), []string{loopConn}, m.CounterpartyVersion)) {
			return "the other end is not as claimed"
		}
		v, fee, bad := negotiate(m.CounterpartyVersion, false)
		if bad != "" {
			return bad
		}
		s.newChannel(channeltypes.NewChannel(channeltypes.TRYOPEN, channeltypes.UNORDERED, channeltypes.NewCounterparty(tport, cp), []string{loopConn}, v), fee)
		return ""

	case *channeltypes.MsgChannelOpenAck:
		o.seen = append(o.seen, "chack")
		c, ok := s.ch(m.ChannelId)
		if !ok || c.State != channeltypes.INIT {
			return "the channel is not waiting for the other end"
		}
		if !bytes.Equal(m.ProofTry, goodProof) {
			return "bad proof"
		}
		if !s.sameCh(m.CounterpartyChannelId, channeltypes.NewChannel(channeltypes.TRYOPEN, c.Ordering, channeltypes.NewCounterparty(tport, m.ChannelId), []string{loopConn}, m.CounterpartyVersion)) {
			return "the other end is not as claimed"
		}
		v := m.CounterpartyVersion
		if s.feeEnabled(m.ChannelId) {
			md, err := feetypes.MetadataFromVersion(v)
			if err != nil || md.FeeVersion != feetypes.Version {
				return "the other end has no fees"
			}
			v = md.AppVersion
		}
		if v != ics20 {
			return "wrong transfer version"
		}
		c.State, c.Version, c.Counterparty.ChannelId = channeltypes.OPEN, m.CounterpartyVersion, m.CounterpartyChannelId
		s.setCh(m.ChannelId, c)
		return ""

	case *channeltypes.MsgChannelOpenConfirm:
		o.seen = append(o.seen, "chconf")
		c, ok := s.ch(m.ChannelId)
		if !ok || c.State != channeltypes.TRYOPEN {
			return "the channel is not waiting for the other end"
		}
		if !bytes.Equal(m.ProofAck, goodProof) {
			return "bad proof"
		}
		if !s.sameCh(c.Counterparty.ChannelId, channeltypes.NewChannel(channeltypes.OPEN, c.Ordering, channeltypes.NewCounterparty(tport, m.ChannelId), []string{loopConn}, c.Version)) {
			return "the other end is not open"
		}
		c.State = channeltypes.OPEN
		s.setCh(m.ChannelId, c)
		return ""

	case *channeltypes.MsgChannelCloseInit:
		o.seen = append(o.seen, "chclose")
		return "nobody may close a transfer channel"

	case *transfertypes.MsgTransfer:
		o.seen = append(o.seen, "xfer")
		c, ok := s.ch(m.SourceChannel)
		if !ok || m.SourcePort != tport {
			return "no such channel"
		}
		path := m.Token.Denom
		if strings.HasPrefix(path, "ibc/") {
			h, err := transfertypes.ParseHexHash(path[4:])
			if err != nil {
				return "bad voucher"
			}
			v, ok := s.IBC[trK(append([]byte{2}, h...))]
			if !ok {
				return "unknown voucher"
			}
			var t transfertypes.DenomTrace
			must(t.Unmarshal([]byte(v)))
			path = t.GetFullDenomPath()
		}
		amt := bi(m.Token.Amount)
		cc := []Coin{{m.Token.Denom, amt}}
		if !strings.HasPrefix(path, trPrefix(m.SourceChannel)) {
			if !w.send(s, m.Sender, escrowAddr(m.SourceChannel), cc) {
				return "insufficient funds"
			}
			w.escrowed(s, m.Token.Denom, amt)
		} else {
			if w.spendable(s, m.Sender, m.Token.Denom).Cmp(amt) < 0 {
				return "insufficient funds"
			}
			s.addBal(m.Sender, m.Token.Denom, neg(amt))
			s.addSup(m.Token.Denom, neg(amt))
		}
		if c.State != channeltypes.OPEN {
			return "the channel is not open"
		}
		if m.TimeoutHeight.IsZero() && m.TimeoutTimestamp == 0 {
			return "no timeout"
		}
		if elapsed(H, now, m.TimeoutHeight, m.TimeoutTimestamp) {
			return "the timeout has passed"
		}
		nk := ibcK(host.NextSequenceSendKey(tport, m.SourceChannel))
		seq := beU64(s.IBC[nk])
		s.IBC[nk] = u64be(seq + 1)
		d := transfertypes.NewFungibleTokenPacketData(path, m.Token.Amount.String(), m.Sender, m.Receiver, m.Memo)
		p := channeltypes.NewPacket(d.GetBytes(), seq, tport, m.SourceChannel, c.Counterparty.PortId, c.Counterparty.ChannelId, m.TimeoutHeight, m.TimeoutTimestamp)
		if p.ValidateBasic() != nil {
			return "the packet is not valid"
		}
		s.IBC[ibcK(host.PacketCommitmentKey(tport, m.SourceChannel, seq))] = string(w.commitment(p))
		return ""

	case *channeltypes.MsgRecvPacket:
		o.seen = append(o.seen, "recv")
		p := m.Packet
		c, ok := s.ch(p.DestinationChannel)
		if !ok || c.State != channeltypes.OPEN {
			return "the channel is not open"
		}
		if p.SourcePort != c.Counterparty.PortId || p.SourceChannel != c.Counterparty.ChannelId {
			return "from another channel"
		}
		if elapsed(H, now, p.TimeoutHeight, p.TimeoutTimestamp) {
			return "the packet has timed out"
		}
		if !bytes.Equal(m.ProofCommitment, goodProof) || s.IBC[ibcK(host.PacketCommitmentKey(p.SourcePort, p.SourceChannel, p.Sequence))] != string(w.commitment(p)) {
			return "no such packet was sent"
		}
		rk := ibcK(host.PacketReceiptKey(tport, p.DestinationChannel, p.Sequence))
		if _, ok := s.IBC[rk]; ok {
			w.Stats.Inc("fault_packet_repeated", 1)
			return ""
		}
		s.IBC[rk] = "\x01"
		t := s.clone()
		took := w.deliver(t, p)
		ack := okAck
		fee := s.feeEnabled(p.DestinationChannel)
		fwd := ""
		if fee {
			fwd = s.IBC[feeK(feetypes.KeyCounterpartyPayee(m.Signer, p.DestinationChannel))]
			ack = feetypes.NewIncentivizedAcknowledgement(fwd, okAck, true).Acknowledgement()
		}
		ak := ibcK(host.PacketAcknowledgementKey(tport, p.DestinationChannel, p.Sequence))
		good := string(channeltypes.CommitAcknowledgement(ack))
		if took {
			*s = *t
			s.IBC[ak] = good
			w.Stats.Inc("ibc_delivered", 1)
			return ""
		}
		w.Stats.Inc("ibc_refused", 1)
		if obs == nil {
			o.soft = true
			return ""
		}
		// some failure, the same everywhere
		if got, ok := obs.IBC[ak]; ok && got != good && len(got) == 32 {
			s.IBC[ak] = got
		} else {
			s.IBC[ak] = "a failure"
		}
		return ""

	case *channeltypes.MsgAcknowledgement:
		o.seen = append(o.seen, "ack")
		p := m.Packet
		c, ok := s.ch(p.SourceChannel)
		if !ok || c.State != channeltypes.OPEN {
			return "the channel is not open"
		}
		if p.DestinationPort != c.Counterparty.PortId || p.DestinationChannel != c.Counterparty.ChannelId {
			return "for another channel"
		}
		ck := ibcK(host.PacketCommitmentKey(tport, p.SourceChannel, p.Sequence))
		have, ok := s.IBC[ck]
		if !ok {
			w.Stats.Inc("fault_ack_repeated", 1)
			return ""
		}
		if have != string(w.commitment(p)) {
			return "not the packet that was sent"
		}
		if !bytes.Equal(m.ProofAcked, goodProof) || s.IBC[ibcK(host.PacketAcknowledgementKey(p.DestinationPort, p.DestinationChannel, p.Sequence))] != string(channeltypes.CommitAcknowledgement(m.Acknowledgement)) {
			return "no such acknowledgement was written"
		}
		delete(s.IBC, ck)
		app := m.Acknowledgement
		if s.feeEnabled(p.SourceChannel) {
			var ia feetypes.IncentivizedAcknowledgement
			if feetypes.ModuleCdc.UnmarshalJSON(m.Acknowledgement, &ia) != nil {
				return "not an acknowledgement with fees"
			}
			app = ia.AppAcknowledgement
			if k, fs := w.fees(s, p.SourceChannel, p.Sequence); fs != nil {
				rev := w.payeeOf(s, m.Signer, p.SourceChannel)
				for _, f := range fs {
					fwd := f.RefundAddress
					if a, err := sdk.AccAddressFromBech32(ia.ForwardRelayerAddress); err == nil {
						fwd = a.String()
					}
					w.payFee(s, fwd, f.RefundAddress, f.Fee.RecvFee)
					w.payFee(s, rev, f.RefundAddress, f.Fee.AckFee)
					w.payFee(s, f.RefundAddress, f.RefundAddress, f.Fee.Total().Sub(f.Fee.RecvFee...).Sub(f.Fee.AckFee...))
				}
				delete(s.IBC, k)
				w.Stats.Inc("ibc_fees_on_ack", 1)
			}
		}
		if bytes.Equal(app, okAck) {
			return ""
		}
		var a channeltypes.Acknowledgement
		if transfertypes.ModuleCdc.UnmarshalJSON(app, &a) != nil {
			return "not an acknowledgement"
		}
		if !a.Success() {
			w.Stats.Inc("ibc_returned", 1)
			return w.putBack(s, p)
		}
		return ""

	case *channeltypes.MsgTimeout:
		o.seen = append(o.seen, "tmo")
		p := m.Packet
		c, ok := s.ch(p.SourceChannel)
		if !ok {
			return "no such channel"
		}
		if p.DestinationPort != c.Counterparty.PortId || p.DestinationChannel != c.Counterparty.ChannelId {
			return "for another channel"
		}
		if !elapsed(m.ProofHeight.RevisionHeight, now, p.TimeoutHeight, p.TimeoutTimestamp) {
			return "the packet has not timed out"
		}
		ck := ibcK(host.PacketCommitmentKey(tport, p.SourceChannel, p.Sequence))
		have, ok := s.IBC[ck]
		if !ok {
			w.Stats.Inc("fault_timeout_repeated", 1)
			return ""
		}
		if have != string(w.commitment(p)) {
			return "not the packet that was sent"
		}
		_, got := s.IBC[ibcK(host.PacketReceiptKey(p.DestinationPort, p.DestinationChannel, p.Sequence))]
		if got || !bytes.Equal(m.ProofUnreceived, goodProof) {
			return "the packet was received"
		}
		delete(s.IBC, ck)
		if s.feeEnabled(p.SourceChannel) {
			if k, fs := w.fees(s, p.SourceChannel, p.Sequence); fs != nil {
				to := w.payeeOf(s, m.Signer, p.SourceChannel)
				for _, f := range fs {
					w.payFee(s, to, f.RefundAddress, f.Fee.TimeoutFee)
					w.payFee(s, f.RefundAddress, f.RefundAddress, f.Fee.Total().Sub(f.Fee.TimeoutFee...))
				}
				delete(s.IBC, k)
				w.Stats.Inc("ibc_fees_on_timeout", 1)
			}
		}
		w.Stats.Inc("ibc_timed_out", 1)
		return w.putBack(s, p)

	case *feetypes.MsgPayPacketFee:
		o.seen = append(o.seen, "fee")
		if !s.feeEnabled(m.SourceChannelId) {
			return "the channel has no fees"
		}
		return w.escrowFee(s, m.SourceChannelId, beU64(s.IBC[ibcK(host.NextSequenceSendKey(tport, m.SourceChannelId))]), feetypes.NewPacketFee(m.Fee, m.Signer, m.Relayers))

	case *feetypes.MsgPayPacketFeeAsync:
		o.seen = append(o.seen, "feea")
		ch, seq := m.PacketId.ChannelId, m.PacketId.Sequence
		if !s.feeEnabled(ch) {
			return "the channel has no fees"
		}
		if seq >= beU64(s.IBC[ibcK(host.NextSequenceSendKey(tport, ch))]) {
			return "no such packet was sent"
		}
		if _, ok := s.IBC[ibcK(host.PacketCommitmentKey(tport, ch, seq))]; !ok {
			return "the packet is done with"
		}
		return w.escrowFee(s, ch, seq, m.PacketFee)

	case *feetypes.MsgRegisterPayee:
		o.seen = append(o.seen, "payee")
		if blockedAddr[m.Payee] {
			return "blocked payee"
		}
		if _, ok := s.ch(m.ChannelId); !ok || !s.feeEnabled(m.ChannelId) {
			return "the channel has no fees"
		}
		s.IBC[feeK(feetypes.KeyPayee(m.Relayer, m.ChannelId))] = m.Payee
		return ""

	case *feetypes.MsgRegisterCounterpartyPayee:
		o.seen = append(o.seen, "cpayee")
		if _, ok := s.ch(m.ChannelId); !ok || !s.feeEnabled(m.ChannelId) {
			return "the channel has no fees"
		}
		s.IBC[feeK(feetypes.KeyCounterpartyPayee(m.Relayer, m.ChannelId))] = m.CounterpartyPayee
		return ""
	}
	o.opaque, o.soft = true, true
	return ""
}

func (w *World) commitment(p channeltypes.Packet) []byte {
	return channeltypes.CommitPacket(w.Nodes[0].app.AppCodec(), p)
}

func diffIBC(a, b map[string]string) []string {
	var d []string
	if a == nil || b == nil {
		return nil
	}
	for _, k := range unionS(a, b) {
		x, ok := a[k]
		y, ok2 := b[k]
		switch {
		case ok && !ok2:
			d = append(d, fmt.Sprintf("ibc record %q is missing", k))
		case !ok && ok2:
			d = append(d, fmt.Sprintf("ibc record %q should not exist but is %q", k, cut(y)))
		case x != y:
			d = append(d, fmt.Sprintf("ibc record %q: expected %q, is %q", k, cut(x), cut(y)))
		}
	}
	return d
}

// checkIBC: vouchers are backed, fees are in escrow, packets take effect once.
func (w *World) checkIBC(H int64, Z *Snap) {
	if Z.IBC == nil {
		return
	}
	// what every escrow account must hold
	need := map[string]map[string]*big.Int{}
	put := func(ch, c string, x *big.Int) {
		a := escrowAddr(ch)
		if need[a] == nil {
			need[a] = map[string]*big.Int{}
		}
		need[a][c] = add(orZero(need[a][c]), x)
	}
	other := map[string]string{}
	for k := range Z.IBC {
		if !strings.HasPrefix(k, "ibc/channelEnds/ports/"+tport+"/channels/") {
			continue
		}
		id := k[strings.LastIndex(k, "/")+1:]
		if c, ok := Z.ch(id); ok {
			other[id] = c.Counterparty.ChannelId
			a := escrowAddr(id)
			if need[a] == nil {
				need[a] = map[string]*big.Int{}
			}
		}
	}
	traced := map[string]bool{}
	for k, v := range Z.IBC {
		if !strings.HasPrefix(k, "transfer/\x02") {
			continue
		}
		var t transfertypes.DenomTrace
		must(t.Unmarshal([]byte(v)))
		if t.IBCDenom() != "ibc/"+strings.ToUpper(hex.EncodeToString([]byte(k[len("transfer/\x02"):]))) {
			w.viol(P("C26"), "trace-hash", "block %d: the trace %s is filed under another hash", H, v)
		}
		traced[t.IBCDenom()] = true
		full := t.GetFullDenomPath()
		for id, cp := range other {
			if pre := trPrefix(id); strings.HasPrefix(full, pre) {
				put(cp, coinOf(full[len(pre):]), Z.sup(t.IBCDenom()))
			}
		}
	}
	open := 0
	for _, p := range w.pkts {
		if _, ok := Z.IBC[ibcK(host.PacketCommitmentKey(tport, p.Src, p.Seq))]; !ok {
			continue
		}
		if _, ok := Z.IBC[ibcK(host.PacketReceiptKey(tport, p.P.DestinationChannel, p.Seq))]; ok && !bytes.Contains(p.Ack, []byte("error")) && !failedAck(p.Ack) {
			continue
		}
		open++
		var d transfertypes.FungibleTokenPacketData
		if transfertypes.ModuleCdc.UnmarshalJSON(p.P.Data, &d) != nil {
			continue
		}
		if pre := trPrefix(p.Src); strings.HasPrefix(d.Denom, pre) {
			put(p.P.DestinationChannel, coinOf(d.Denom[len(pre):]), bigS(d.Amount)) // on its way home
		} else {
			put(p.Src, coinOf(d.Denom), bigS(d.Amount))
		}
	}
	for _, a := range sortedStr(need) {
		for _, d := range unionS(need[a], Z.Bal[a]) {
			want := add(orZero(need[a][d]), w.obs.donated(a, d))
			if want.Cmp(Z.bal(a, d)) != 0 {
				w.viol(P("C26", "C01"), "voucher-backing", "block %d: channel escrow %s holds %s%s; vouchers, packets on their way and gifts account for %s", H, a, Z.bal(a, d), d, want)
			}
		}
	}
	// fees
	owed := map[string]*big.Int{}
	for k, v := range Z.IBC {
		if !strings.HasPrefix(k, "feeibc/feesInEscrow") {
			continue
		}
		var f feetypes.PacketFees
		must(f.Unmarshal([]byte(v)))
		for _, x := range f.PacketFees {
			for _, c := range x.Fee.Total() {
				owed[c.Denom] = add(orZero(owed[c.Denom]), bi(c.Amount))
			}
		}
	}
	for _, d := range unionS(owed, Z.Bal[feeModAddr]) {
		want := add(orZero(owed[d]), w.obs.donated(feeModAddr, d))
		if want.Cmp(Z.bal(feeModAddr, d)) != 0 {
			w.viol(P("C26", "C01"), "fee-backing", "block %d: the relayer fee account holds %s%s; promised fees and gifts account for %s", H, Z.bal(feeModAddr, d), d, want)
		}
	}
	w.traced = traced
	w.Stats.Inc("ibc_states", 1)
	if open > 0 {
		w.Stats.Inc("ibc_states_in_flight", 1)
	}
}

// failedAck reports that an acknowledgement with fees wraps a failure.
func failedAck(a []byte) bool {
	var ia feetypes.IncentivizedAcknowledgement
	if feetypes.ModuleCdc.UnmarshalJSON(a, &ia) == nil && len(ia.AppAcknowledgement) > 0 {
		return !bytes.Equal(ia.AppAcknowledgement, okAck)
	}
	return false
}

// packets in a fixed order
func (w *World) pktList() []*ibcPkt {
	var x []*ibcPkt
	for _, p := range w.pkts {
		x = append(x, p)
	}
	sort.Slice(x, func(i, j int) bool {
		if x[i].Src != x[j].Src {
			return x[i].Src < x[j].Src
		}
		return x[i].Seq < x[j].Seq
	})
	return x
}
