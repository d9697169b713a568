package servicesunlynx

import (
	"github.com/fanliao/go-concurrentMap"
	"github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/lib/store"
	"github.com/ldsec/unlynx/protocols"
	"github.com/ldsec/unlynx/zznet"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
)

// What the protocols deliver, given what they are started with. (That they do is
// what the laws about the protocols say.)

var (
	zzRuns     int         // protocols started
	zzLaunched interface{} // the last one
	zzMask     libunlynx.CipherText
	zzPrf      kyber.Scalar
)

func zzMasked(in libunlynx.CipherVector) (out libunlynx.CipherVector) {
	for _, c := range in {
		out = append(out, libunlynx.CipherText{K: zzS.Point().Add(c.K, zzMask.K), C: zzS.Point().Add(c.C, zzMask.C)})
	}
	return out
}

func zzmodel_ShufflingProtocol_Start(p *protocolsunlynx.ShufflingProtocol) error {
	zzRuns++
	return nil
}

func zzmodel_ShufflingProtocol_Dispatch(p *protocolsunlynx.ShufflingProtocol) error {
	zzLaunched = p
	var out []libunlynx.CipherVector
	for _, r := range *p.ShuffleTarget {
		out = append(out, zzMasked(r))
	}
	p.FeedbackChannel <- out
	return nil
}

func zzmodel_DeterministicTaggingProtocol_Start(p *protocolsunlynx.DeterministicTaggingProtocol) error {
	zzRuns++
	return nil
}

func zzmodel_DeterministicTaggingProtocol_Dispatch(p *protocolsunlynx.DeterministicTaggingProtocol) error {
	zzLaunched = p
	var out []libunlynx.DeterministCipherText
	for _, c := range *p.TargetOfSwitch {
		out = append(out, zzTag(c, *p.SurveySecretKey))
	}
	p.FeedbackChannel <- out
	return nil
}

func zzmodel_CollectiveAggregationProtocol_Start(p *protocolsunlynx.CollectiveAggregationProtocol) error {
	zzRuns++
	return nil
}

func zzmodel_CollectiveAggregationProtocol_Dispatch(p *protocolsunlynx.CollectiveAggregationProtocol) error {
	zzLaunched = p
	p.FeedbackChannel <- protocolsunlynx.CothorityAggregatedData{GroupedData: *p.GroupedData}
	return nil
}

func zzmodel_KeySwitchingProtocol_Start(p *protocolsunlynx.KeySwitchingProtocol) error {
	zzRuns++
	return nil
}

func zzmodel_KeySwitchingProtocol_Dispatch(p *protocolsunlynx.KeySwitchingProtocol) error {
	zzLaunched = p
	var out libunlynx.CipherVector
	for _, c := range *p.TargetOfSwitch {
		out = append(out, zzSwitch(c, *p.TargetPublicKey))
	}
	p.FeedbackChannel <- out
	return nil
}

func zzTag(c libunlynx.CipherText, s kyber.Scalar) libunlynx.DeterministCipherText {
	return libunlynx.DeterministCipherText{Point: zzS.Point().Add(c.K, zzS.Point().Mul(s, c.C))}
}

func zzSwitch(c libunlynx.CipherText, key kyber.Point) libunlynx.CipherText {
	return libunlynx.CipherText{K: zzS.Point().Add(c.K, zzMask.K), C: zzS.Point().Add(c.C, key)}
}

func zzSwitchAll(in libunlynx.CipherVector, key kyber.Point) (out libunlynx.CipherVector) {
	for _, c := range in {
		out = append(out, zzSwitch(c, key))
	}
	return out
}

var zzS = libunlynx.SuiTe

// zzService is a service that holds one survey, and the node it starts protocols on.
func zzService(s *Service, tn *onet.TreeNodeInstance, sv Survey) *Service {
	zznet.Reset()
	zznet.Clear()
	zznet.Instance, zznet.Posted, zzRuns, zzLaunched = tn, nil, 0, nil
	out := &Service{ServiceProcessor: s.ServiceProcessor, Survey: &concurrent.ConcurrentMap{}}
	if out.putSurvey(sv.Query.SurveyID, sv) != nil {
		return nil
	}
	return out
}

// C13_KSPhase: the querier is given every aggregated group, switched to its own key.
func C13_KSPhase(s *Service, tn *onet.TreeNodeInstance, sv Survey, mask libunlynx.CipherText) (pre bool, got, want []libunlynx.FilteredResponse) {
	if !tn.IsRoot() || libunlynx.DIFFPRI {
		return false, nil, nil
	}
	svc, groups := zzService(s, tn, sv), sv.GroupedDeterministicFilteredResponses
	zzMask = mask
	if svc.KeySwitchingPhase(sv.Query.SurveyID) != nil || zzRuns != 1 {
		return true, nil, []libunlynx.FilteredResponse{{}}
	}
	after, err := svc.getSurvey(sv.Query.SurveyID)
	if err != nil {
		return true, nil, []libunlynx.FilteredResponse{{}}
	}
	for _, v := range groups {
		want = append(want, libunlynx.FilteredResponse{
			GroupByEnc:            zzSwitchAll(v.GroupByEnc, sv.Query.ClientPubKey),
			AggregatingAttributes: zzSwitchAll(v.AggregatingAttributes, sv.Query.ClientPubKey)})
	}
	return true, after.DeliverableResults, want
}

// C13_ShufflePhase: the responses of the data providers go through the shuffle, and nothing else does.
func C13_ShufflePhase(s *Service, tn *onet.TreeNodeInstance, sv Survey, rs []libunlynx.ProcessResponse, mask libunlynx.CipherText) (pre bool, got, want []libunlynx.ProcessResponse) {
	if !tn.IsRoot() || len(rs) < 2 {
		return false, nil, nil
	}
	sv.Store = libunlynxstore.NewStore()
	sv.Store.DpResponses = rs
	svc := zzService(s, tn, sv)
	zzMask = mask
	if svc.ShufflingPhase(sv.Query.SurveyID) != nil || zzRuns != 1 {
		return true, nil, nil
	}
	after, err := svc.getSurvey(sv.Query.SurveyID)
	if err != nil {
		return true, nil, nil
	}
	for _, r := range rs {
		want = append(want, libunlynx.ProcessResponse{WhereEnc: zzMasked(r.WhereEnc), GroupByEnc: zzMasked(r.GroupByEnc), AggregatingAttributes: zzMasked(r.AggregatingAttributes)})
	}
	return true, after.ShuffledProcessResponses, want
}

// C13_ShuffleNothing: without data there is nothing to shuffle.
func C13_ShuffleNothing(s *Service, tn *onet.TreeNodeInstance, sv Survey) bool {
	sv.Store = libunlynxstore.NewStore()
	svc := zzService(s, tn, sv)
	return svc.ShufflingPhase(sv.Query.SurveyID) == nil && zzRuns == 0
}

// C13_AggPhase: the groups of the server go into the collective aggregation, and its result is what is switched later.
func C13_AggPhase(s *Service, tn *onet.TreeNodeInstance, sv Survey, groups map[libunlynx.GroupingKey]libunlynx.FilteredResponse) (pre bool, got, want map[libunlynx.GroupingKey]libunlynx.FilteredResponse) {
	sv.Store = libunlynxstore.NewStore()
	sv.Store.LocAggregatedProcessResponse = groups
	svc := zzService(s, tn, sv)
	if svc.AggregationPhase(sv.Query.SurveyID) != nil || zzRuns != 1 {
		return true, nil, nil
	}
	after, err := svc.getSurvey(sv.Query.SurveyID)
	if err != nil {
		return true, nil, nil
	}
	return len(after.LocAggregatedProcessResponse) == 0, after.GroupedDeterministicFilteredResponses, groups
}

// C13_TagPhase: every response is tagged, and grouped by its own tags.
func C13_TagPhase(s *Service, tn *onet.TreeNodeInstance, sv Survey, rs []libunlynx.ProcessResponse) (pre bool, got, want map[libunlynx.GroupingKey]libunlynx.FilteredResponse) {
	if !tn.IsRoot() || len(rs) == 0 || sv.Query.Proofs {
		return false, nil, nil
	}
	sv.Query.Where, sv.Query.Predicate = nil, ""
	sv.Store = libunlynxstore.NewStore()
	sv.Store.ShuffledProcessResponses = rs
	svc := zzService(s, tn, sv)
	if svc.TaggingPhase(sv.Query.SurveyID) != nil || zzRuns != 1 {
		return true, nil, nil
	}
	after, err := svc.getSurvey(sv.Query.SurveyID)
	if err != nil {
		return true, nil, nil
	}
	want = make(map[libunlynx.GroupingKey]libunlynx.FilteredResponse)
	for _, r := range rs {
		var tags libunlynx.DeterministCipherVector
		for _, c := range r.GroupByEnc {
			tags = append(tags, zzTag(c, sv.SurveySecretKey))
		}
		libunlynx.AddInMap(want, tags.Key(), libunlynx.FilteredResponse{GroupByEnc: r.GroupByEnc, AggregatingAttributes: r.AggregatingAttributes})
	}
	return true, after.LocAggregatedProcessResponse, want
}

var zzNoise []float64

func zzmodel_GenerateNoiseValues(n int64, mean, b, quanta, limit float64) []float64 { return zzNoise }

// C13_Noise: the noise is one of the values of the list, encrypted by the shuffle.
func C13_Noise(s *Service, tn *onet.TreeNodeInstance, sv Survey, x, y float64, mask libunlynx.CipherText) (pre bool, got, want libunlynx.CipherText) {
	if !tn.IsRoot() {
		return false, got, want
	}
	svc := zzService(s, tn, sv)
	zzMask, zzNoise = mask, []float64{x, y}
	if svc.DROPhase(sv.Query.SurveyID) != nil || zzRuns != 1 {
		return true, got, mask
	}
	after, err := svc.getSurvey(sv.Query.SurveyID)
	if err != nil {
		return true, got, mask
	}
	return true, after.Noise, zzMasked(libunlynx.IntArrayToCipherVector([]int64{int64(x)}))[0]
}

// C13_ShuffleClear: so do those that providers sent in clear, and that are already added up.
func C13_ShuffleClear(s *Service, tn *onet.TreeNodeInstance, sv Survey, k1, k2 libunlynxstore.GroupingKeyTuple, a, b libunlynx.ProcessResponse, mask libunlynx.CipherText) (pre bool, got, want int) {
	if !tn.IsRoot() || k1 == k2 {
		return false, 0, 0
	}
	sv.Store = libunlynxstore.NewStore()
	sv.Store.DpResponsesAggr = map[libunlynxstore.GroupingKeyTuple]libunlynx.ProcessResponse{k1: a, k2: b}
	svc := zzService(s, tn, sv)
	zzMask = mask
	if svc.ShufflingPhase(sv.Query.SurveyID) != nil || zzRuns != 1 {
		return true, 0, 2
	}
	after, err := svc.getSurvey(sv.Query.SurveyID)
	if err != nil {
		return true, 0, 2
	}
	return true, len(after.ShuffledProcessResponses), 2
}
