package servicesunlynx

import (
	"github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/lib/shuffle"
	"github.com/ldsec/unlynx/lib/store"
	"github.com/ldsec/unlynx/lib/tools"
	"github.com/ldsec/unlynx/zznet"
	"github.com/satori/go.uuid"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
	"go.dedis.ch/onet/v3/network"
)

var (
	zzStarted  []zzStart
	zzOutcome  []libunlynx.FilteredResponse
	zzNewID    uuid.UUID
	zzPrepared []libunlynxshuffle.CipherVectorScalar
)

type zzStart struct {
	ID   SurveyID
	Root bool
	Key  kyber.Point
}

func zzmodel_Service_StartService(s *Service, id SurveyID, root bool) error {
	sv, err := s.getSurvey(id)
	if err != nil {
		return err
	}
	zzStarted = append(zzStarted, zzStart{id, root, sv.Query.ClientPubKey})
	sv.PushQuerierKeyEncryptedResponses(zzOutcome)
	return s.putSurvey(id, sv)
}

func zzmodel_NewV4() uuid.UUID { return zzNewID }

func zzmodel_PrecomputationWritingForShuffling(appFlag bool, gobFile, serverName string, surveySecret kyber.Scalar, collectiveKey kyber.Point, lineSize int) ([]libunlynxshuffle.CipherVectorScalar, error) {
	return zzPrepared, nil
}

// C13_Results: the querier that asks is given the results of its own survey, computed for the key it asks with.
func C13_Results(s *Service, sv Survey, key kyber.Point, out []libunlynx.FilteredResponse) (got, want []libunlynx.FilteredResponse) {
	svc, id := zzServe(s, sv), sv.Query.SurveyID
	zzStarted, zzOutcome = nil, out
	r, err := svc.HandleSurveyResultsQuery(&SurveyResultsQuery{SurveyID: id, ClientPublic: key})
	if err != nil || len(zzStarted) != 1 || zzStarted[0].ID != id || !zzStarted[0].Root || !zzStarted[0].Key.Equal(key) {
		return nil, []libunlynx.FilteredResponse{{}}
	}
	return r.(*ServiceResult).Results, out
}

// C13_ResultsOnce: what was delivered is not delivered again.
func C13_ResultsOnce(s *Service, sv Survey, key kyber.Point, out []libunlynx.FilteredResponse) bool {
	svc, id := zzServe(s, sv), sv.Query.SurveyID
	zzStarted, zzOutcome = nil, out
	if _, err := svc.HandleSurveyResultsQuery(&SurveyResultsQuery{SurveyID: id, ClientPublic: key}); err != nil {
		return false
	}
	after, err := svc.getSurvey(id)
	return err == nil && len(after.DeliverableResults) == 0
}

// C13_ResultsOther: the other servers start the same survey, as others and with the key of the querier.
func C13_ResultsOther(s *Service, sv Survey, key kyber.Point) (got, want []zzStart) {
	svc, id := zzServe(s, sv), sv.Query.SurveyID
	zzStarted, zzOutcome = nil, nil
	if _, err := svc.HandleSurveyResultsQuery(&SurveyResultsQuery{IntraMessage: true, SurveyID: id, ClientPublic: key}); err != nil {
		return nil, []zzStart{{}}
	}
	return zzStarted, []zzStart{{id, false, key}}
}

// C13_ResultsForward: the query is passed on to every other server, marked as coming from a server.
func C13_ResultsForward(s *Service, sv Survey, key kyber.Point, intra bool) (got, want []zznet.Raw) {
	svc, id := zzServe(s, sv), sv.Query.SurveyID
	zzStarted, zzOutcome = nil, nil
	if _, err := svc.HandleSurveyResultsQuery(&SurveyResultsQuery{IntraMessage: intra, SurveyID: id, ClientPublic: key}); err != nil {
		return nil, []zznet.Raw{{}}
	}
	m := &SurveyResultsQuery{IntraMessage: true, SurveyID: id, ClientPublic: key}
	for _, e := range sv.Query.Roster.List {
		if !e.ID.Equal(s.ServerIdentity().ID) && !intra {
			want = append(want, zznet.Raw{To: e, Body: m})
		}
	}
	return zznet.Posted, want
}

// C13_Response: the data of a provider ends up in the survey it was sent for, and counts once.
func C13_Response(s *Service, sv Survey, rs []libunlynx.DpResponseToSend) (got, want []libunlynx.ProcessResponse) {
	sv.Store = libunlynxstore.NewStore()
	sv.DpChannel = make(chan int, 4)
	svc, id := zzServe(s, sv), sv.Query.SurveyID
	if _, err := svc.HandleSurveyResponseQuery(&SurveyResponseQuery{SurveyID: id, Responses: rs}); err != nil || len(sv.DpChannel) != 1 || <-sv.DpChannel != 1 {
		return nil, []libunlynx.ProcessResponse{{}}
	}
	st := libunlynxstore.NewStore()
	for _, r := range rs {
		d := libunlynx.DpResponse{}
		if d.FromDpResponseToSend(r) != nil {
			return nil, []libunlynx.ProcessResponse{{}}
		}
		st.InsertDpResponse(d, sv.Query.Proofs, sv.Query.GroupBy, sv.Query.Sum, sv.Query.Where)
	}
	after, err := svc.getSurvey(id)
	if err != nil {
		return nil, []libunlynx.ProcessResponse{{}}
	}
	return after.PullDpResponses(), st.PullDpResponses()
}

// C13_ResponseOther: the data sent for one survey does not reach another.
func C13_ResponseOther(s *Service, sv, other Survey, rs []libunlynx.DpResponseToSend) (pre bool, got, want int) {
	if sv.Query.SurveyID == other.Query.SurveyID {
		return false, 0, 0
	}
	sv.Store, other.Store = libunlynxstore.NewStore(), libunlynxstore.NewStore()
	sv.DpChannel, other.DpChannel = make(chan int, 4), make(chan int, 4)
	svc := zzServe(s, sv)
	if svc.putSurvey(other.Query.SurveyID, other) != nil {
		return true, 1, 0
	}
	if _, err := svc.HandleSurveyResponseQuery(&SurveyResponseQuery{SurveyID: sv.Query.SurveyID, Responses: rs}); err != nil {
		return true, 1, 0
	}
	after, err := svc.getSurvey(other.Query.SurveyID)
	if err != nil {
		return true, 1, 0
	}
	return true, len(after.DpResponses) + len(after.DpResponsesAggr) + len(after.DpChannel), 0
}

// C13_Signals: a server that is done with its tags, or has received the query, is counted once, for the right survey.
func C13_Signals(s *Service, sv Survey) bool {
	sv.DDTChannel, sv.SurveyChannel, sv.DpChannel = make(chan int, 4), make(chan int, 4), make(chan int, 4)
	svc, id := zzServe(s, sv), sv.Query.SurveyID
	if _, err := svc.HandleDDTfinished(&DDTfinished{SurveyID: id}); err != nil {
		return false
	}
	if len(sv.DDTChannel) != 1 || len(sv.SurveyChannel) != 0 || len(sv.DpChannel) != 0 || <-sv.DDTChannel != 1 {
		return false
	}
	if _, err := svc.HandleQueryBroadcastFinished(&QueryBroadcastFinished{SurveyID: id}); err != nil {
		return false
	}
	return len(sv.DDTChannel) == 0 && len(sv.SurveyChannel) == 1 && len(sv.DpChannel) == 0 && <-sv.SurveyChannel == 1
}

// C13_Create: a server that is told of a survey keeps its query, starts it empty, and reports to the one it has it from.
func C13_Create(s *Service, q SurveyCreationQuery) (pre bool, got, want []zznet.Raw) {
	svc := zzServe(s, Survey{})
	q.IntraMessage, q.AppFlag = true, false
	if _, err := svc.HandleSurveyCreationQuery(&q); err != nil {
		return true, nil, []zznet.Raw{{}}
	}
	sv, err := svc.getSurvey(q.SurveyID)
	if err != nil || sv.Query.SurveyID != q.SurveyID || sv.Query.Predicate != q.Predicate || sv.Query.Proofs != q.Proofs {
		return true, nil, []zznet.Raw{{}}
	}
	if len(sv.DpResponses) != 0 || len(sv.DpResponsesAggr) != 0 || len(sv.DeliverableResults) != 0 || len(sv.LocAggregatedProcessResponse) != 0 || len(sv.GroupedDeterministicFilteredResponses) != 0 {
		return true, nil, []zznet.Raw{{}}
	}
	return true, zznet.Posted, []zznet.Raw{{To: q.Source, Body: &QueryBroadcastFinished{SurveyID: q.SurveyID}}}
}

// C13_CreateRoot: the server the client talks to passes the whole query on, under the identifier it chose and as the
// one to report to.
func C13_CreateRoot(s *Service, q SurveyCreationQuery, id uuid.UUID) (pre bool, got, want []zznet.Raw) {
	svc := zzServe(s, Survey{})
	zzNewID = id
	q.IntraMessage, q.AppFlag = false, false
	q0 := q
	r, err := svc.HandleSurveyCreationQuery(&q)
	if err != nil || r.(*ServiceState).SurveyID != SurveyID(id.String()) {
		return true, nil, []zznet.Raw{{}}
	}
	if _, err := svc.getSurvey(SurveyID(id.String())); err != nil {
		return true, nil, []zznet.Raw{{}}
	}
	m := &SurveyCreationQuery{}
	*m = q0
	m.SurveyID, m.IntraMessage, m.Source = SurveyID(id.String()), true, s.ServerIdentity()
	for _, e := range q.Roster.List {
		if !e.ID.Equal(s.ServerIdentity().ID) {
			want = append(want, zznet.Raw{To: e, Body: m})
		}
	}
	return true, zznet.Posted, want
}

// C13_FreshSecrets: the secrets servers choose for surveys do not depend on what is known.
func C13_FreshSecrets(s *Service, q1, q2 SurveyCreationQuery) (got, want bool) {
	a, b := zzSecretFor(s, q1), zzSecretFor(s, q2)
	return a == nil || b == nil || a.Equal(b), false
}

func zzSecretFor(s *Service, q SurveyCreationQuery) kyber.Scalar {
	svc := zzServe(s, Survey{})
	q.IntraMessage, q.AppFlag = true, false
	if _, err := svc.HandleSurveyCreationQuery(&q); err != nil {
		return nil
	}
	a, err := svc.getSurvey(q.SurveyID)
	if err != nil {
		return nil
	}
	return a.SurveySecretKey
}

var zzFile map[string][]libunlynx.DpClearResponse

func zzmodel_ReadDataFromFile(name string) (map[string][]libunlynx.DpClearResponse, error) {
	return zzFile, nil
}

// C13_App: a server that is to take its data from the file takes its own part of it, encrypts it under the key of all
// the servers, and counts itself as a provider that has answered.
func C13_App(s *Service, q SurveyCreationQuery, other *network.ServerIdentity, x kyber.Scalar, v, w int64, count bool) (pre bool, got, want []kyber.Point) {
	me := s.ServerIdentity()
	if other.String() == me.String() {
		return false, nil, nil
	}
	svc := zzServe(s, Survey{})
	zzFile = map[string][]libunlynx.DpClearResponse{
		"0": {{AggregatingAttributesEnc: map[string]int64{"s0": w}}},
		"1": {{AggregatingAttributesEnc: map[string]int64{"s0": v}}}}
	q.IntraMessage, q.AppFlag, q.Count = true, true, count
	q.Sum, q.Where, q.GroupBy = []string{"s0"}, nil, nil
	if count {
		q.Sum = append(q.Sum, "count")
	}
	q.Roster = onet.Roster{List: []*network.ServerIdentity{other, me}, Aggregate: zzS.Point().Mul(x, nil)}
	if _, err := svc.HandleSurveyCreationQuery(&q); err != nil {
		return true, nil, []kyber.Point{nil}
	}
	sv, err := svc.getSurvey(q.SurveyID)
	if err != nil || len(sv.DpChannel) != 1 {
		return true, nil, []kyber.Point{nil}
	}
	want = append(want, zzS.Point().Mul(zzS.Scalar().SetInt64(v), nil))
	if count {
		want = append(want, zzS.Point().Mul(zzS.Scalar().SetInt64(1), nil))
	}
	for _, r := range sv.PullDpResponses() {
		for _, c := range r.AggregatingAttributes {
			got = append(got, zzS.Point().Sub(c.C, zzS.Point().Mul(x, c.K)))
		}
	}
	return true, got, want
}

// zzTypes gives the messages of a service their types.
func zzTypes(a, b, c, d network.MessageTypeID) bool {
	msgTypes = MsgTypes{a, b, c, d}
	return a != b && a != c && a != d && b != c && b != d && c != d
}

// C13_Dispatch: a signal of another server is counted for what it is.
func C13_Dispatch(s *Service, sv Survey, a, b, c, d network.MessageTypeID) (pre bool, got, want []int) {
	if !zzTypes(a, b, c, d) {
		return false, nil, nil
	}
	sv.DDTChannel, sv.SurveyChannel, sv.DpChannel = make(chan int, 4), make(chan int, 4), make(chan int, 4)
	svc, id := zzServe(s, sv), sv.Query.SurveyID
	svc.Process(&network.Envelope{MsgType: c, Msg: &DDTfinished{SurveyID: id}})
	got = append(got, len(sv.DDTChannel), len(sv.SurveyChannel), len(sv.DpChannel))
	svc.Process(&network.Envelope{MsgType: d, Msg: &QueryBroadcastFinished{SurveyID: id}})
	return true, append(got, len(sv.DDTChannel), len(sv.SurveyChannel), len(sv.DpChannel)), []int{1, 0, 0, 1, 1, 0}
}

// C13_DispatchResults: when another server asks for the results of a survey, this server takes its part in it.
func C13_DispatchResults(s *Service, sv Survey, key kyber.Point, a, b, c, d network.MessageTypeID) (pre bool, got, want []zzStart) {
	if !zzTypes(a, b, c, d) {
		return false, nil, nil
	}
	svc, id := zzServe(s, sv), sv.Query.SurveyID
	zzStarted, zzOutcome = nil, nil
	svc.Process(&network.Envelope{MsgType: b, Msg: &SurveyResultsQuery{IntraMessage: true, SurveyID: id, ClientPublic: key}})
	return true, zzStarted, []zzStart{{id, false, key}}
}

// C13_DispatchCreate: when another server announces a survey, this server has it afterwards and says so.
func C13_DispatchCreate(s *Service, q SurveyCreationQuery, a, b, c, d network.MessageTypeID) (pre bool, got, want []zznet.Raw) {
	if !zzTypes(a, b, c, d) {
		return false, nil, nil
	}
	svc := zzServe(s, Survey{})
	q.IntraMessage, q.AppFlag = true, false
	svc.Process(&network.Envelope{MsgType: a, Msg: &q})
	if sv, err := svc.getSurvey(q.SurveyID); err != nil || sv.Query.SurveyID != q.SurveyID {
		return true, nil, []zznet.Raw{{}}
	}
	return true, zznet.Posted, []zznet.Raw{{To: q.Source, Body: &QueryBroadcastFinished{SurveyID: q.SurveyID}}}
}

// C13_ForwardFails: a server that cannot be reached is reported, and does not keep the query from the others.
func C13_ForwardFails(s *Service, e1, e2, e3 *network.ServerIdentity, m *SurveyResultsQuery) (pre bool, got, want []zznet.Raw) {
	all := []*network.ServerIdentity{e1, e2, e3}
	for _, e := range all {
		if e.ID.Equal(s.ServerIdentity().ID) {
			return false, nil, nil
		}
	}
	if e1 == e2 || e1 == e3 || e2 == e3 {
		return false, nil, nil
	}
	zznet.Posted, zznet.Lost = nil, e2
	err := libunlynxtools.SendISMOthers(s.ServiceProcessor, &onet.Roster{List: all}, m)
	zznet.Lost = nil
	if err == nil {
		return true, nil, []zznet.Raw{{}}
	}
	for i, e := range all {
		if i != 1 {
			want = append(want, zznet.Raw{To: e, Body: m})
		}
	}
	return true, zznet.Posted, want
}

// C13_ResponseEach: what one response of a provider contains does not carry over to its next one.
func C13_ResponseEach(s *Service, sv Survey, g, v int64, c libunlynx.CipherText) (pre bool, got, want int) {
	b, err := c.ToBytes()
	if err != nil {
		return false, 0, 0
	}
	sv.Store, sv.DpChannel = libunlynxstore.NewStore(), make(chan int, 4)
	sv.Query.GroupBy, sv.Query.Sum, sv.Query.Where = []string{"g"}, []string{"s"}, nil
	svc := zzServe(s, sv)
	rs := []libunlynx.DpResponseToSend{
		{GroupByEnc: map[string][]byte{"g": b}, AggregatingAttributesEnc: map[string][]byte{"s": b}},
		{GroupByClear: map[string]int64{"g": g}, AggregatingAttributesClear: map[string]int64{"s": v}}}
	if _, err := svc.HandleSurveyResponseQuery(&SurveyResponseQuery{SurveyID: sv.Query.SurveyID, Responses: rs}); err != nil {
		return true, -1, 0
	}
	after, err := svc.getSurvey(sv.Query.SurveyID)
	if err != nil {
		return true, -1, 0
	}
	return true, 10*len(after.DpResponses) + len(after.DpResponsesAggr), 11
}
