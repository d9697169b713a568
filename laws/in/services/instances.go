package servicesunlynx

import (
	"github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/lib/store"
	"github.com/ldsec/unlynx/protocols"
	"github.com/ldsec/unlynx/zznet"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
)

func zzInstance(s *Service, tn *onet.TreeNodeInstance, sv Survey, name string) (*Service, onet.ProtocolInstance) {
	svc := zzServe(s, sv)
	zznet.Reset()
	zznet.Name = name
	pi, err := svc.NewProtocol(tn, &onet.GenericConfig{Data: []byte(string(sv.Query.SurveyID))})
	if err != nil {
		return svc, nil
	}
	return svc, pi
}

// C13_TagKey: every server tags with the secret it chose for this survey.
func C13_TagKey(s *Service, tn *onet.TreeNodeInstance, sv Survey) (got, want kyber.Scalar) {
	_, pi := zzInstance(s, tn, sv, protocolsunlynx.DeterministicTaggingProtocolName)
	if pi == nil {
		return nil, sv.SurveySecretKey
	}
	return *pi.(*protocolsunlynx.DeterministicTaggingProtocol).SurveySecretKey, sv.SurveySecretKey
}

// C13_TagTarget: the root has the attributes of the query tagged along with those of the responses.
func C13_TagTarget(s *Service, tn *onet.TreeNodeInstance, sv Survey, rs []libunlynx.ProcessResponse) (pre bool, got, want libunlynx.CipherVector) {
	if !tn.IsRoot() {
		return false, nil, nil
	}
	sv.Store = libunlynxstore.NewStore()
	sv.Store.ShuffledProcessResponses = rs
	_, pi := zzInstance(s, tn, sv, protocolsunlynx.DeterministicTaggingProtocolName)
	if pi == nil {
		return true, nil, libunlynx.CipherVector{{}}
	}
	for _, w := range sv.Query.Where {
		want = append(want, w.Value)
	}
	for _, r := range rs {
		want = append(want, r.WhereEnc...)
		want = append(want, r.GroupByEnc...)
	}
	return true, *pi.(*protocolsunlynx.DeterministicTaggingProtocol).TargetOfSwitch, want
}

// C13_SwitchKey: the results are switched to the key the querier gave.
func C13_SwitchKey(s *Service, tn *onet.TreeNodeInstance, sv Survey) (pre bool, got, want kyber.Point) {
	if !tn.IsRoot() {
		return false, nil, nil
	}
	_, pi := zzInstance(s, tn, sv, protocolsunlynx.KeySwitchingProtocolName)
	if pi == nil {
		return true, nil, sv.Query.ClientPubKey
	}
	return true, *pi.(*protocolsunlynx.KeySwitchingProtocol).TargetPublicKey, sv.Query.ClientPubKey
}

// C13_Proofs: every server proves what it does if the query asks for it, whatever the step.
func C13_Proofs(s *Service, tn *onet.TreeNodeInstance, sv Survey) bool {
	sv.DDTChannel = make(chan int, 4)
	_, a := zzInstance(s, tn, sv, protocolsunlynx.ShufflingProtocolName)
	_, b := zzInstance(s, tn, sv, protocolsunlynx.DeterministicTaggingProtocolName)
	_, d := zzInstance(s, tn, sv, protocolsunlynx.KeySwitchingProtocolName)
	_, e := zzInstance(s, tn, sv, protocolsunlynx.DROProtocolName)
	if a == nil || b == nil || d == nil || e == nil {
		return false
	}
	p := sv.Query.Proofs
	return a.(*protocolsunlynx.ShufflingProtocol).Proofs == p && b.(*protocolsunlynx.DeterministicTaggingProtocol).Proofs == p &&
		d.(*protocolsunlynx.KeySwitchingProtocol).Proofs == p && e.(*protocolsunlynx.ShufflingProtocol).Proofs == p &&
		a.(*protocolsunlynx.ShufflingProtocol).ProofFunc != nil && d.(*protocolsunlynx.KeySwitchingProtocol).ProofFunc != nil &&
		e.(*protocolsunlynx.ShufflingProtocol).ProofFunc != nil
}

// C13_Gathered: every server contributes its groups to the collective aggregation, once.
func C13_Gathered(s *Service, tn *onet.TreeNodeInstance, sv Survey, groups map[libunlynx.GroupingKey]libunlynx.FilteredResponse) (pre bool, got, want map[libunlynx.GroupingKey]libunlynx.FilteredResponse) {
	sv.Store = libunlynxstore.NewStore()
	sv.Store.LocAggregatedProcessResponse = groups
	svc, pi := zzInstance(s, tn, sv, protocolsunlynx.CollectiveAggregationProtocolName)
	if pi == nil {
		return true, nil, groups
	}
	after, err := svc.getSurvey(sv.Query.SurveyID)
	if err != nil || len(after.LocAggregatedProcessResponse) != 0 || pi.(*protocolsunlynx.CollectiveAggregationProtocol).Proofs != sv.Query.Proofs {
		return true, nil, groups
	}
	return true, *pi.(*protocolsunlynx.CollectiveAggregationProtocol).GroupedData, groups
}

// C13_ShuffleTarget: all the data of the providers is shuffled, once.
func C13_ShuffleTarget(s *Service, tn *onet.TreeNodeInstance, sv Survey, rs []libunlynx.ProcessResponse) (pre bool, got, want []libunlynx.CipherVector) {
	if !tn.IsRoot() || len(rs) < 2 {
		return false, nil, nil
	}
	sv.Store = libunlynxstore.NewStore()
	sv.Store.DpResponses = rs
	svc, pi := zzInstance(s, tn, sv, protocolsunlynx.ShufflingProtocolName)
	if pi == nil {
		return true, nil, nil
	}
	after, err := svc.getSurvey(sv.Query.SurveyID)
	if err != nil || after.HasNextDpResponse() {
		return true, nil, nil
	}
	for _, r := range rs {
		var row libunlynx.CipherVector
		row = append(row, r.GroupByEnc...)
		row = append(row, r.WhereEnc...)
		row = append(row, r.AggregatingAttributes...)
		want = append(want, row)
	}
	return true, *pi.(*protocolsunlynx.ShufflingProtocol).ShuffleTarget, want
}
