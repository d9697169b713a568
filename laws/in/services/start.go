package servicesunlynx

import (
	"github.com/fanliao/go-concurrentMap"
	"github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/zznet"
	"go.dedis.ch/onet/v3"
)

// The phases only say that they were run, and for which survey.

type zzStep struct {
	Phase string
	ID    SurveyID
	Sent  int
}

var zzTrace []zzStep

func zzmodel_Service_ShufflingPhase(s *Service, id SurveyID) error {
	zzTrace = append(zzTrace, zzStep{"shuffle", id, len(zznet.Posted)})
	return nil
}

func zzmodel_Service_TaggingPhase(s *Service, id SurveyID) error {
	zzTrace = append(zzTrace, zzStep{"tag", id, len(zznet.Posted)})
	return nil
}

func zzmodel_Service_AggregationPhase(s *Service, id SurveyID) error {
	zzTrace = append(zzTrace, zzStep{"aggregate", id, len(zznet.Posted)})
	return nil
}

func zzmodel_Service_DROPhase(s *Service, id SurveyID) error {
	zzTrace = append(zzTrace, zzStep{"noise", id, len(zznet.Posted)})
	return nil
}

func zzmodel_Service_KeySwitchingPhase(s *Service, id SurveyID) error {
	zzTrace = append(zzTrace, zzStep{"switch", id, len(zznet.Posted)})
	return nil
}

func zzServe(s *Service, sv Survey) *Service {
	zznet.Clear()
	zzTrace, zznet.Posted = nil, nil
	out := &Service{ServiceProcessor: s.ServiceProcessor, Survey: &concurrent.ConcurrentMap{}}
	if out.putSurvey(sv.Query.SurveyID, sv) != nil {
		return nil
	}
	return out
}

// C13_StartRoot: a query goes through the shuffle, the tags, the aggregation, the noise and the key switch, in this
// order, and the other servers are told in between that this one is done with its tags.
func C13_StartRoot(s *Service, sv Survey) (pre bool, got, want []zzStep) {
	svc, id := zzServe(s, sv), sv.Query.SurveyID
	if sv.Query.MapDPs[s.ServerIdentity().String()] > 0 {
		return false, nil, nil
	}
	if svc.StartService(id, true) != nil {
		return true, nil, []zzStep{{}}
	}
	n := len(zznet.Posted)
	want = []zzStep{{"shuffle", id, 0}, {"tag", id, 0}, {"aggregate", id, n}}
	if libunlynx.DIFFPRI {
		want = append(want, zzStep{"noise", id, n})
	}
	want = append(want, zzStep{"switch", id, n})
	return true, zzTrace, want
}

// C13_StartOther: the other servers shuffle and tag their own data; the rest is up to the root.
func C13_StartOther(s *Service, sv Survey) (pre bool, got, want []zzStep) {
	svc, id := zzServe(s, sv), sv.Query.SurveyID
	if sv.Query.MapDPs[s.ServerIdentity().String()] > 0 {
		return false, nil, nil
	}
	if svc.StartService(id, false) != nil {
		return true, nil, []zzStep{{}}
	}
	return true, zzTrace, []zzStep{{"shuffle", id, 0}, {"tag", id, 0}}
}

// C13_Announce: every other server is told that the tags of this one are done, and no one else is.
func C13_Announce(s *Service, sv Survey, root bool) (pre bool, got, want []zznet.Raw) {
	svc, id := zzServe(s, sv), sv.Query.SurveyID
	if sv.Query.MapDPs[s.ServerIdentity().String()] > 0 {
		return false, nil, nil
	}
	if svc.StartService(id, root) != nil {
		return true, nil, []zznet.Raw{{}}
	}
	m := &DDTfinished{SurveyID: id}
	for _, e := range sv.Query.Roster.List {
		if !e.ID.Equal(s.ServerIdentity().ID) {
			want = append(want, zznet.Raw{To: e, Body: m})
		}
	}
	return true, zznet.Posted, want
}

// C13_Wait: the phases start once as many providers have sent their data as the query announced.
func C13_Wait(s *Service, sv Survey) (pre bool, got, want int) {
	sv.DpChannel = make(chan int, 4)
	sv.DpChannel <- 1
	sv.DpChannel <- 1
	sv.DpChannel <- 1
	sv.Query.MapDPs = map[string]int64{s.ServerIdentity().String(): 2}
	svc := zzServe(s, sv)
	if svc.StartService(sv.Query.SurveyID, false) != nil {
		return true, -1, 0
	}
	return true, len(sv.DpChannel), 1
}

var _ onet.Service = (*Service)(nil)
