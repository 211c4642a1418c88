package main

import (
	"path"
)

func pathClean(s string) string { return path.Clean(s) }

func (a *Analysis) each(f ...func(*Rec)) {
	for _, r := range a.recs {
		if a.rawSid(r.sid) {
			continue
		}
		for _, g := range f {
			g(r)
		}
	}
}

// judge runs every check a property implies over the history of a run.
func judge(w *World, prop string) {
	a := analyse(w)
	for _, p := range w.probs {
		w.fail("protocol", "%s", p)
	}
	for _, r := range a.recs {
		if r.file != "" && a.diskHit(r) {
			w.count("checked.diskhit")
		}
	}
	switch prop {
	case "C01":
		a.checkAlive()
		a.checkResponses(true)
		a.checkLifecycle()
		a.checkGauge()
		a.each(a.checkSubstance)
	case "C02":
		a.checkAlive()
		a.checkResponses(true)
		a.checkLifecycle()
		a.each(a.checkRec, a.checkFinal)
	case "C03":
		a.checkAlive()
		a.checkLifecycle()
		a.each(a.checkFinal, a.checkWebM, a.checkComplete)
		a.each(func(r *Rec) { a.checkAudio(r, true) })
	case "C04":
		a.checkAlive()
		a.checkResponses(true)
		a.checkStatus()
		a.checkLifecycle()
		a.each(a.checkRec)
	case "C05":
		a.checkAlive()
		a.checkResponses(true)
		a.checkLifecycle()
		a.each(a.checkWebM, a.checkFinal)
		a.each(func(r *Rec) {
			if r.pub != nil && !r.pub.video.hostile() && !r.pub.audio.hostile() {
				a.checkRec(r)
			}
		})
	case "C06":
		a.checkAlive()
		a.checkResponses(true)
		a.checkLifecycle()
		a.each(a.checkRec, a.checkReopen, a.checkMade, a.checkIVFPart)
		a.checkGauge()
	case "C07":
		a.checkAlive()
		a.checkConfined()
		a.checkResponses(true)
	case "C08":
		a.each(a.checkIntegrity, a.checkSubstance, a.checkDims)
	case "C09":
		a.each(a.checkDecodable)
	case "C10":
		a.checkAlive()
		a.each(a.checkComplete, a.checkResume)
	case "C11":
		a.each(a.checkTimes)
		a.each(func(r *Rec) {
			// (no frame is lost because of its timestamp)
			if r.pub != nil && !r.pub.video.hostile() && !r.pub.audio.hostile() {
				a.checkComplete(r)
				a.checkAudio(r, true)
			}
		})
	case "C26":
		a.checkStamps()
		a.each(a.checkPositions)
	case "C25":
		a.each(a.checkSync, a.checkTimes)
	case "C12":
		a.checkAlive()
		a.each(func(r *Rec) { a.checkAudio(r, true) })
	case "C13":
		a.checkAlive()
		a.each(a.checkNack, a.checkPLI)
	case "C14":
		a.checkAlive()
		a.each(a.checkIntegrity, a.checkComplete)
		if w.sc.Profile == "latency" {
			a.each(a.checkLatency)
		}
	case "C15":
		a.checkAlive()
		a.each(a.checkFlow)
	case "C16":
		a.checkDurable()
	case "C17":
		a.checkAlive()
		a.checkStatus()
		a.checkServing()
	case "C18":
		a.checkAlive()
		a.checkOutages()
		a.checkResponses(true)
		a.checkLifecycle()
		a.checkStatus()
		a.each(a.checkRec)
	case "C19":
		a.checkAlive()
		a.checkGauge()
	case "C20":
		a.checkAlive()
		a.checkResources()
	case "C21":
		a.checkAlive()
		a.checkHTTP()
		a.checkResponses(false)
	case "C22":
		a.checkAlive()
		a.checkLK()
		a.checkResponses(true)
		a.checkLifecycle()
		a.each(a.checkRec, a.checkFlow, a.checkPLI, a.checkFinal)
		a.checkResources()
	case "C23":
		a.checkAlive()
		a.each(a.checkIVF, a.checkRec, a.checkDims)
	case "C28":
		a.checkAlive()
		a.checkMedia()
		a.each(a.checkRec)
	case "C27":
		a.checkAlive()
		a.checkDump()
		a.checkServing()
		a.checkReload()
		a.checkResponses(true)
		a.each(a.checkRec)
	case "C24":
		a.checkAlive()
		a.checkReload()
		a.checkResponses(true)
		a.checkLifecycle()
		a.each(a.checkRec, a.checkFinal)
	}
}
