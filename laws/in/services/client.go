package servicesunlynx

import (
	"github.com/ldsec/unlynx/lib"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
	"go.dedis.ch/onet/v3/network"
)

// The server a client talks to.

var (
	zzReply   []libunlynx.FilteredResponse
	zzState   SurveyID
	zzAsked   interface{}
	zzAskedAt *network.ServerIdentity
)

func zzmodel_Client_SendProtobuf(c *onet.Client, dst *network.ServerIdentity, msg interface{}, ret interface{}) error {
	zzAsked, zzAskedAt = msg, dst
	switch r := ret.(type) {
	case *ServiceResult:
		r.Results = zzReply
	case *ServiceState:
		r.SurveyID = zzState
	}
	return nil
}

// C13_ClientAsks: a client asks for the results with its own key.
func C13_ClientAsks(c *API, id SurveyID) bool {
	zzReply = nil
	_, _, err := c.SendSurveyResultsQuery(id)
	q := zzAsked.(*SurveyResultsQuery)
	return err == nil && zzAskedAt == c.entryPoint && q.SurveyID == id && !q.IntraMessage && q.ClientPublic.Equal(c.public)
}

// C13_ClientReads: a client reads every group and every aggregate of the reply, with its own key.
func C13_ClientReads(c *API, id SurveyID, rs []libunlynx.FilteredResponse) (got, want [][]int64) {
	zzReply = rs
	g, a, err := c.SendSurveyResultsQuery(id)
	if err != nil {
		return nil, [][]int64{nil}
	}
	for i := range rs {
		got = append(got, (*g)[i], (*a)[i])
		want = append(want, libunlynx.DecryptIntVector(c.private, &rs[i].GroupByEnc), libunlynx.DecryptIntVector(c.private, &rs[i].AggregatingAttributes))
	}
	return append(got, []int64{int64(len(*g)), int64(len(*a))}), append(want, []int64{int64(len(rs)), int64(len(rs))})
}

// C13_ClientCreates: the query reaches the server as the client stated it.
func C13_ClientCreates(c *API, el *onet.Roster, id SurveyID, key kyber.Point, dps map[string]int64, proofs, app, count bool, sum, groupBy []string, where []libunlynx.WhereQueryAttribute, pred string, st SurveyID) (got, want SurveyCreationQuery) {
	zzState = st
	r, err := c.SendSurveyCreationQuery(el, id, key, dps, proofs, app, sum, count, where, pred, groupBy)
	if err != nil || *r != st {
		return got, SurveyCreationQuery{Count: true, SurveyID: id}
	}
	return *zzAsked.(*SurveyCreationQuery), SurveyCreationQuery{SurveyID: id, Roster: *el, ClientPubKey: key, MapDPs: dps, Proofs: proofs, AppFlag: app, Sum: sum, Count: count, Where: where, Predicate: pred, GroupBy: groupBy}
}

// C13_ClientSends: every response is sent, encrypted, as often as it is to be repeated.
func C13_ClientSends(c *API, id SurveyID, rs []libunlynx.DpClearResponse, key kyber.Point, n int, count bool) (pre bool, got, want int) {
	if n < 1 {
		return false, 0, 0
	}
	err := c.SendSurveyResponseQuery(id, rs, key, n, count)
	q := zzAsked.(*SurveyResponseQuery)
	if err != nil || zzAskedAt != c.entryPoint || q.SurveyID != id {
		return true, -1, 0
	}
	return true, len(q.Responses), len(rs) * n
}

// C13_ClientClear: what is to be sent in clear is sent as it is.
func C13_ClientClear(id SurveyID, r libunlynx.DpClearResponse, key kyber.Point, k string) (got, want []int64) {
	q, err := EncryptDataToSurvey("", id, []libunlynx.DpClearResponse{r}, key, 1, false)
	if err != nil || len(q.Responses) != 1 {
		return nil, []int64{0}
	}
	a := q.Responses[0]
	return []int64{a.GroupByClear[k], a.WhereClear[k], a.AggregatingAttributesClear[k], int64(len(a.GroupByEnc)), int64(len(a.WhereEnc))},
		[]int64{r.GroupByClear[k], r.WhereClear[k], r.AggregatingAttributesClear[k], int64(len(r.GroupByEnc)), int64(len(r.WhereEnc))}
}

// C13_ClientEncryptsOne: the same for a response with one attribute of each kind.
func C13_ClientEncryptsOne(id SurveyID, g, w, s int64, x kyber.Scalar) (got, want []kyber.Point) {
	r := libunlynx.DpClearResponse{GroupByEnc: map[string]int64{"g0": g}, WhereEnc: map[string]int64{"w0": w}, AggregatingAttributesEnc: map[string]int64{"s0": s}}
	q, err := EncryptDataToSurvey("", id, []libunlynx.DpClearResponse{r}, zzS.Point().Mul(x, nil), 1, true)
	if err != nil || len(q.Responses) != 1 {
		return nil, []kyber.Point{nil}
	}
	a := q.Responses[0]
	for _, b := range [][]byte{a.GroupByEnc["g0"], a.WhereEnc["w0"], a.AggregatingAttributesEnc["s0"], a.AggregatingAttributesEnc["count"]} {
		c := libunlynx.CipherText{}
		if c.FromBytes(b) != nil {
			return nil, []kyber.Point{nil}
		}
		got = append(got, zzS.Point().Sub(c.C, zzS.Point().Mul(x, c.K)))
	}
	for _, v := range []int64{g, w, s, 1} {
		want = append(want, zzS.Point().Mul(zzS.Scalar().SetInt64(v), nil))
	}
	return got, want
}

// C13_ClientRepeats: every response is sent as often as it is to be repeated, in the order given.
func C13_ClientRepeats(id SurveyID, a, b libunlynx.DpClearResponse, key kyber.Point, k string) (got, want []int64) {
	q, err := EncryptDataToSurvey("", id, []libunlynx.DpClearResponse{a, b}, key, 2, false)
	if err != nil || len(q.Responses) != 4 {
		return nil, []int64{0}
	}
	for _, x := range q.Responses {
		got = append(got, x.GroupByClear[k], x.WhereClear[k], x.AggregatingAttributesClear[k], int64(len(x.GroupByEnc)), int64(len(x.WhereEnc)), int64(len(x.AggregatingAttributesEnc)))
	}
	for _, x := range []libunlynx.DpClearResponse{a, a, b, b} {
		want = append(want, x.GroupByClear[k], x.WhereClear[k], x.AggregatingAttributesClear[k], int64(len(x.GroupByEnc)), int64(len(x.WhereEnc)), int64(len(x.AggregatingAttributesEnc)))
	}
	return got, want
}

// C13_ClientRepeatsEnc: the repetitions hold the value of their own response.
func C13_ClientRepeatsEnc(id SurveyID, g, w, s, g2, w2, s2 int64, x kyber.Scalar) (got, want []kyber.Point) {
	r := libunlynx.DpClearResponse{GroupByEnc: map[string]int64{"g0": g}, WhereEnc: map[string]int64{"w0": w}, AggregatingAttributesEnc: map[string]int64{"s0": s}}
	t := libunlynx.DpClearResponse{GroupByEnc: map[string]int64{"g0": g2}, WhereEnc: map[string]int64{"w0": w2}, AggregatingAttributesEnc: map[string]int64{"s0": s2}}
	q, err := EncryptDataToSurvey("", id, []libunlynx.DpClearResponse{r, t}, zzS.Point().Mul(x, nil), 2, false)
	if err != nil || len(q.Responses) != 4 {
		return nil, []kyber.Point{nil}
	}
	for _, a := range q.Responses {
		for _, b := range [][]byte{a.GroupByEnc["g0"], a.WhereEnc["w0"], a.AggregatingAttributesEnc["s0"]} {
			c := libunlynx.CipherText{}
			if c.FromBytes(b) != nil {
				return nil, []kyber.Point{nil}
			}
			got = append(got, zzS.Point().Sub(c.C, zzS.Point().Mul(x, c.K)))
		}
	}
	for _, v := range []int64{g, w, s, g, w, s, g2, w2, s2, g2, w2, s2} {
		want = append(want, zzS.Point().Mul(zzS.Scalar().SetInt64(v), nil))
	}
	return got, want
}
