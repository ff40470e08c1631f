// What each profile generates.
#pragma once
#include "gen.hpp"
namespace gen {

// a stream for every client of t.settings
inline void streams(Gen& g) { for (size_t c = 0; c < g.t.settings.size(); c++) { auto wk = g.walker(); g.deliver(g.events(wk), (int)c); } }
inline std::map<std::string, double> plainSettings(Gen& g) {
  auto s = g.settings(); for (auto n : {"useStops", "useSmoothing", "useTimeSmoothing", "useGraphProjection", "useGps", "useBarometer", "useBarriers", "useTracking", "useClosestAps"}) s[n] = 0; return s;
}

// several clients hear the same at the same times (the same phone, two settings), or nearly so (two phones in one pocket)
inline void likeTwins(Gen& g, int n) {
  auto wk = g.walker(); if (g.r.p(.6)) g.k.batch = 2; g.deliver(g.events(wk), 0); if (g.r.p(.6)) g.t.par["step"] = g.r.uni(.7, 1); auto base = g.t.ops; bool exact = g.r.p(.4); double sd = g.r.uni(1, 15);
  for (int c = 1; c < n; c++) for (auto op : base) { if (op.c != 0) continue; op.c = c; if (!exact && op.op == 'M' && op.m.kind == MK_RADIO && op.m.v[0] < -2) op.m.v[0] = std::min(-1.5, op.m.v[0] + g.r.gauss() * sd); g.t.ops.push_back(op); }
}
inline Trace make(const std::string& P, uint64_t seed, ll index) {
  Gen g(seed * 1000003ull + (uint64_t)index, std::hash<std::string>()(P)); g.t.profile = P; g.t.seed = seed; g.t.index = index; Knobs& k = g.k; Rng& r = g.r; auto& T = g.t;
  auto rich = [&] { k.maxRp = 14; k.minRp = 3; k.knn = 2; k.accHz = r.p(.6) ? r.uni(8, 25) : 0; k.gpsHz = r.p(.5) ? r.uni(.3, 1.5) : 0; k.nmeaHz = k.gpsHz > 0 && r.p(.5) ? .7 : 0; k.oriHz = r.p(.5) ? r.uni(.3, 4) : 0; k.gyroHz = r.p(.3) ? 8 : 0; k.magHz = r.p(.3) ? 5 : 0; k.baroHz = r.p(.2) ? 6 : 0; k.graph = r.p(.5); k.radioKinds = (int)r.i(1, 3); k.rtt = r.p(.1); k.locators = r.p(.1) ? .4 : 0; k.intRssi = r.p(.12); };
  auto one = [&] { g.world(); T.settings.push_back(g.settings()); };
  k.simS = r.uni(15, 60); k.radioHz = r.uni(.8, 3);
  for (auto n : {"C01", "C02", "C04", "C18", "C19", "C20"}) if (P == n) k.pMarathon = 0;
  for (auto n : {"C02", "C18", "C19", "C20"}) if (P == n) k.pCrowd = 0;
  if (P == "C01") { rich(); k.simS = r.uni(10, 40); k.monotone = true; k.pRestart = 0; k.maxMsgs = 800; g.world(); int n = (int)r.i(1, 3); for (int i = 0; i < n; i++) T.settings.push_back(g.settings()); T.par["vseed"] = (double)r.i(1, 1000000000); auto wk = g.walker(); g.deliver(g.events(wk), 0); }
  else if (P == "C02") { rich(); k.maxLevels = 3; k.simS = r.uni(6, 20); k.maxMsgs = 160; k.accHz = std::min(k.accHz, 8.0); k.gyroHz = std::min(k.gyroHz, 4.0); k.minTx = 3; k.maxTx = 6; g.world(); int n = (int)r.i(2, 4); bool twins = r.p(.4), sameSet = r.p(twins ? .7 : .4); for (int i = 0; i < n; i++) T.settings.push_back(sameSet && i ? T.settings[0] : g.settings()); T.par["sched"] = (double)r.i(1, 1000000000); T.par["mean"] = std::exp(r.uni(std::log(30.), std::log(3e4))); T.par["eager"] = r.p(.3) ? 0 : r.uni(.05, 1); T.par["first"] = r.p(.5); T.par["roam"] = r.p(twins ? .7 : .3); if (T.par["roam"] && r.p(.6)) { T.par["mean"] = std::exp(r.uni(std::log(3e4), std::log(1e7))); T.par["eager"] = r.p(.7) ? 0 : r.uni(0, .05); } if (!twins) streams(g); else likeTwins(g, n); }
  else if (P == "C03") { rich(); k.pSorted = .05; k.batch = r.p(.9) ? (int)r.i(0, 1) : -1; k.pDelay = .9; k.pBurst = .6; k.pSkew = .5; one(); streams(g); }
  else if (P == "C04") { rich(); k.pCorrupt = .95; k.pNonfinite = .6; k.pBackJump = .4; k.pJump = .4; k.pSorted = .5; k.corruptRate = r.p(.7) ? .03 : .2; k.maxMsgs = 700; k.simS = r.uni(10, 60); one(); streams(g); }
  else if (P == "C05") { k.maxRp = 8; k.minRp = 3; k.knn = 2; k.accHz = r.p(.6) ? r.uni(6, 14) : 0; k.gpsHz = r.p(.25) ? .5 : 0; k.pOutage = .95; k.outageMaxS = 40; k.simS = r.uni(40, 140); k.radioHz = r.uni(.6, 1.5); k.standP = .5; k.maxTx = 5; k.batch = r.p(.5) ? 2 : -1; one(); auto& s = T.settings[0]; s["noSignalTimeThreshold"] = (double)r.i(2, 25); s["noActionTimeThreshold"] = (double)r.i(2, 15); if (r.p(.5)) s["deadReckoningTime"] = r.uni(.5, 40); s["useTracking"] = 0; streams(g); }
  else if (P == "C06") { k.maxRp = 8; k.minRp = 3; k.knn = 2; k.radioKinds = (int)r.i(1, 3); k.rtt = r.p(.25); k.locators = r.p(.3) ? .4 : 0; k.pIneligible = .9; k.foreign = r.p(.5) ? r.uni(.5, 3) : 0; k.pNonfinite = .5; k.intRssi = r.p(.12); one(); auto& s = T.settings[0]; s["useUnknownTransmitters"] = r.p(.25); s["useTracking"] = k.locators > 0 ? r.p(.5) : 0; s["sigCutOffRss"] = r.p(.3) ? -100 : std::round(r.uni(-95, -65)); streams(g); }
  else if (P == "C07") { k.maxRp = 8; k.minRp = 3; k.knn = 2; k.accHz = r.p(.4) ? 12 : 0; k.radioHz = r.uni(1, 5); k.pDup = .6; k.pBurst = .6; k.pDelay = .6; k.radioKinds = 1; k.rtt = r.p(.15); g.world(); auto s = plainSettings(g); s["useStops"] = k.accHz > 0 && r.p(.6); s["useClosestAps"] = r.p(.4); T.settings.push_back(s); streams(g); }
  else if (P == "C08") { k.minLevels = 2; k.maxLevels = 5; k.otherBuilding = .1; k.sharedTx = .15; k.maxRp = 8; k.minRp = 2; k.knn = 2; k.levelChangeEvery = r.uni(4, 20); k.pInterf = .7; k.pOutage = .4; k.simS = r.uni(25, 80); g.world(); auto s = plainSettings(g); s["sigAveragingTime"] = r.pick(std::vector<double>{.5, 1, 1, 2}); s["deadReckoningTime"] = 12; s["useTxPower"] = r.p(.4); T.settings.push_back(s); streams(g); }
  else if (P == "C09") { k.pDead = .2; k.minLevels = 2; k.maxLevels = 4; k.sharedTx = .05; k.otherBuilding = 0; k.baroHz = r.uni(5, 14); k.levelChangeEvery = r.uni(5, 30); k.simS = r.uni(40, 130); k.radioHz = r.uni(.5, 1); k.maxTx = 5; k.pInterf = .6; k.pOutage = .5; k.outageMaxS = 12; k.baroLie = r.p(.2); k.baroScale = r.pick(std::vector<double>{.4, .6, 1, 1, 2}); k.maxMsgs = 2500; k.pNonfinite = .3; if (r.p(.2)) k.radioLate = std::min(k.simS / 2, r.uni(190, 240) / k.baroHz); g.world(); auto s = plainSettings(g); s["useBarometer"] = 1; s["sigAveragingTime"] = r.pick(std::vector<double>{.5, 1, 1}); s["deadReckoningTime"] = 12; T.settings.push_back(s); streams(g); }
  else if (P == "C10") { k.minLevels = 1; k.maxLevels = 4; k.sharedTx = .2; k.radioHz = r.uni(.5, 3); k.intRssi = r.p(.12); k.radioKinds = (int)r.i(1, 3); g.world(); auto s = r.p(.7) ? plainSettings(g) : g.settings(); s["useAlgorithm"] = r.i(0, 3); s["useRadiomap"] = 0; T.settings.push_back(s); streams(g); }
  else if (P == "C11") { k.minRp = r.p(.15) ? 1 : 4; k.maxRp = r.p(.3) ? 25 : 12; k.knn = 1; k.maxTx = 10; k.intRssi = r.p(.12); k.radioHz = r.uni(.8, 3); g.world(); auto s = r.p(.8) ? plainSettings(g) : g.settings(); s["useAlgorithm"] = 4; T.settings.push_back(s); streams(g); }
  else if (P == "C12") { k.minRp = 4; k.maxRp = 12; k.knn = 2; k.area = .6; k.pOutage = .7; k.outageMaxS = 15; k.levelChangeEvery = r.uni(6, 30); k.gpsHz = r.p(.2) ? 1 : 0; k.radioNoise = r.uni(1, 8); g.world(); auto s = plainSettings(g); s["useSmoothing"] = 1; s["useBarriers"] = r.p(.4); s["useGps"] = k.gpsHz > 0; s["deadReckoningTime"] = r.uni(2, 15); T.settings.push_back(s); streams(g); }
  else if (P == "C13") { k.pDead = .12; k.pAbsurd = r.p(.25) ? r.uni(.01, .2) : 0; k.minRp = 3; k.maxRp = 8; k.knn = 2; k.gpsHz = r.uni(.5, 3); k.nmeaHz = r.p(.6) ? r.uni(.3, 2) : 0; k.pOutage = .7; k.outageMaxS = 25; k.radioHz = r.uni(.5, 2); g.world(); auto s = plainSettings(g); s["useGps"] = r.p(.9); s["useStops"] = 0; s["useInstantGpsPosition"] = r.p(.15); s["preferIndoorSolution"] = r.p(.2); T.settings.push_back(s); streams(g); }
  else if (P == "C14") { k.minRp = 3; k.maxRp = 8; k.knn = 2; k.accHz = r.uni(9, 18); k.standP = .6; k.simS = r.uni(30, 90); k.radioHz = r.uni(.6, 2); k.maxTx = 5; k.levelChangeEvery = r.uni(10, 40); k.gpsHz = r.p(.2) ? .5 : 0; k.radioNoise = r.uni(2, 8); g.world(); auto s = plainSettings(g); s["useStops"] = 1; s["useSmoothing"] = r.p(.3); s["useGps"] = k.gpsHz > 0; s["noActionTimeThreshold"] = r.i(10, 30); s["stopUpdateTime"] = r.pick(std::vector<double>{.5, 1, 2, 4}); T.settings.push_back(s); streams(g); }
  else if (P == "C15") { k.minRp = 3; k.maxRp = 8; k.knn = 2; k.graph = true; k.levelChangeEvery = r.uni(6, 30); k.gpsHz = r.p(.25) ? 1 : 0; g.world(); auto s = plainSettings(g); s["useGraphProjection"] = r.p(.65); s["useTimeSmoothing"] = r.p(.65); s["useSmoothing"] = r.p(.3); s["useGps"] = k.gpsHz > 0; T.settings.push_back(s); streams(g); }
  else if (P == "C16") { k.pDead = .2; k.spikeExp = 2.5; k.pSpike = r.p(.15) ? r.uni(.001, .02) : 0; bool fast = r.p(.2); k.accHz = fast ? r.uni(60, 250) : r.uni(8, 50); k.jitter = r.uni(0, .9); k.standP = .25; k.simS = fast ? r.uni(6, 15) : r.uni(10, 40); k.radioHz = .5; k.maxTx = 4; k.baroHz = r.p(.3) ? 2 : 0; k.oriHz = r.p(.5) ? 2 : 0; k.gyroHz = r.p(.5) ? 5 : 0; k.gpsHz = r.p(.3) ? .5 : 0; k.maxLevels = 1; k.maxMsgs = fast ? 3500 : 2000; k.pDrop = .6; k.pOutage = .6; k.outageMaxS = 8; one(); streams(g); }
  else if (P == "C17") { k.pDead = .25; k.pSpike = r.p(.2) ? r.uni(.001, .02) : 0; k.accHz = r.p(.8) ? r.uni(4, 15) : 0; k.gyroHz = r.p(.8) ? r.uni(4, 15) : 0; k.magHz = r.p(.8) ? r.uni(3, 10) : 0; k.oriHz = r.p(.7) ? r.uni(.2, 5) : 0; k.radioHz = r.uni(1, 2); k.maxTx = 4; k.simS = r.uni(15, 50); k.maxLevels = 2; k.gpsHz = r.p(.2) ? .5 : 0; k.pOutage = .7; g.world(); auto s = plainSettings(g); s["useGps"] = k.gpsHz > 0; T.settings.push_back(s); streams(g); }
  else if (P == "C27") {   // one stretch of a session, to be played 64 times over
    rich(); k.pMarathon = k.pCrowd = 0; k.simS = r.uni(6, 25); k.maxMsgs = 220; k.maxLevels = 4; k.pJump = k.pBackJump = 0; k.foreign = r.p(.6) ? r.uni(.3, 2) : 0; k.pRestart = r.p(.15) ? 1 : 0; k.pCorrupt = r.p(.3) ? 1 : 0; k.corruptRate = .02; k.standP = .4; k.pDead = .15; if (k.baroHz > 0) k.simS = std::max(k.simS, 12.0); k.pAbsurd = r.p(.1) ? .05 : 0;
    g.world(); auto s = g.settings(); s["useAltitude"] = r.p(.3); if (!r.p(.35)) s["useStops"] = 0; T.settings.push_back(s); streams(g);
    T.par["pause"] = r.p(.5) ? (double)r.i(0, 1500) : r.p(.6) ? (double)r.i(1500, 90000) : (double)r.i(90000, 7200000); T.par["fresh"] = r.p(.7); double once = r.p(.4) ? r.uni(.2, .7) : 0; if (T.par["fresh"]) g.fault("stranger that changes its address");
    if (T.par["pause"] > 1500) g.fault("pause between rounds");
    size_t cut = (size_t)((double)T.ops.size() * once); for (size_t i = 0; i < cut; i++) T.ops[i].tag = "once"; bool sit = s["useStops"] && once > 0 && r.p(.4);   // sits down after the first stretch
    if (sit) { std::vector<Op> v; for (auto& o : T.ops) if (o.tag == "once" || o.op != 'M' || o.m.kind != MK_SENSOR || o.m.type != ST_ACC) v.push_back(o); T.ops.swap(v); }
    ll lo = 0, hi = 0; for (auto& o : T.ops) if (o.op == 'M') { if (!hi) lo = hi = o.m.ts; lo = std::min(lo, o.m.ts); hi = std::max(hi, o.m.ts); } T.simMs = 64 * std::max<ll>(2000, hi - lo + 1 + (ll)T.par["pause"]);
  }
  else if (P == "C26") { k.minLevels = 1; k.maxLevels = 3; k.minTx = 4; k.maxTx = 12; k.sharedTx = .2; k.minRp = 3; k.maxRp = 8; k.knn = 2; k.radioKinds = (int)r.i(1, 3); k.rtt = r.p(.3); k.radioNoise = r.p(.3) ? 0 : r.uni(.2, 3); k.gpsHz = r.p(.2) ? 1 : 0; k.radioHz = r.uni(1, 4); k.simS = r.uni(10, 40); g.world(); auto s = g.settings(); s["useAltitude"] = 1; if (r.p(.7)) s["useClosestAps"] = 0; s["numClosestAps"] = (double)r.i(3, 8); T.settings.push_back(s); streams(g); }
  else if (P == "C18" || P == "C19") {
    bool oom = P == "C19"; rich(); k.baroHz = 0; k.accHz = r.p(.4) ? r.uni(6, 12) : 0; k.gyroHz = k.magHz = 0; k.pRestart = 0; k.locators = 0; k.intRssi = false;
    bool sat = !oom && r.p(.12); if (sat) { k.radioHz = 0; k.gpsHz = r.uni(.5, 1); k.nmeaHz = r.p(.5) ? .7 : 0; k.speed = r.uni(1.2, 8); k.standP = .1; k.bigW = 250; }
    bool baro = !oom && !sat && r.p(.14), stops = !baro && !sat && r.p(.14);   // pressure decides about levels: a change of level in the clean phase; steps hold the position: a walk in the clean phase
    if (baro) { k.minLevels = std::max(2, k.minLevels); k.maxLevels = std::max(2, k.maxLevels); k.gpsHz = 0; k.nmeaHz = 0; k.baroHz = 10; k.baroNoise = r.uni(0, .03); k.baroLie = false; k.baroScale = 1; k.maxTx = std::min(k.maxTx, 10); }
    if (stops) { k.accHz = r.uni(20, 40); k.gpsHz = k.nmeaHz = 0; }
    g.world(); auto s = g.settings(); for (auto n : {"useStops", "useBarometer", "useTracking", "useUnknownTransmitters"}) s[n] = 0; s["useCalculatedAzimuth"] = 0; s["sigAveragingTime"] = r.pick(std::vector<double>{.5, 1, 1, 2}); s["minNumOfMeasurementsForPositionCalculation"] = (double)r.i(1, 3);
    s["deadReckoningTime"] = r.uni(3, 8); s["noSignalTimeThreshold"] = (double)r.i(4, 12); s["noActionTimeThreshold"] = (double)r.i(200, 400); if (k.rtt) s["measurementType"] = 1; else s["measurementType"] = 0; s["signalsToUse"] = 2; s["sigCutOffRss"] = -100;
    if (sat) { s["useGps"] = 1; s["useGpsSigmaFilter"] = r.p(.8); s["sigmaFilterDelta"] = std::max(.5, s["sigmaFilterDelta"]); T.par["satellitesOnly"] = 1; }
    if (s["useSmoothing"] != 0 && s["useAbFilter"] != 0) { s["sigWindowShift"] = r.uni(.35, .5); s["smoothing"] = std::min(.7, s["smoothing"]); if (s["useGps"] != 0) s["useSpeedConstraint"] = 1; }   // its gain depends on the interval between positions and its memory on the smoothing
    if (baro) { s["useBarometer"] = 1; s["sigAveragingTime"] = r.uni(.5, 1); s["sigWindowShift"] = s["sigAveragingTime"]; }
    if (stops) { s["useStops"] = 1; s["stopDetectionTime"] = r.uni(4, 8); s["useSmoothing"] = 0; }
    T.settings = {s, s}; if (oom || r.p(.3)) T.settings.push_back(g.settings());
    bool rare = oom && r.p(.5); double head = r.uni(3, 15), faultS = rare && r.p(.5) ? r.uni(20, 70) : r.uni(3, 25), tail = baro ? 150 : 110; k.simS = head + faultS; auto wk = g.walker(); wk.segs.back().t1 = k.simS; auto e = wk.segs.back(); e.t0 = k.simS; e.t1 = k.simS + tail; e.x0 = e.x1; e.y0 = e.y1; e.moving = false; wk.segs.push_back(e);
    if (baro) { std::vector<int> to; for (int l = 0; l < (int)g.w.lv.size(); l++) if (std::fabs(g.w.lv[l].alt - g.w.lv[e.lvl].alt) >= 4) to.push_back(l);
      if (!to.empty()) { auto& b = wk.segs.back(); auto f = b; b.t1 = k.simS + 40; f.t0 = b.t1; f.lvl = r.pick(to); auto& L = g.w.lv[f.lvl]; f.x0 = f.x1 = L.ox + r.uni(.1, .9) * L.w; f.y0 = f.y1 = L.oy + r.uni(.1, .9) * L.h; wk.segs.push_back(f); T.par["wantLevel"] = f.lvl; g.fault("level changed after the faults"); } else T.settings[0]["useBarometer"] = T.settings[1]["useBarometer"] = 0; }
    if (stops) { auto& b = wk.segs.back(); auto f = b, h = b; b.t1 = k.simS + 30; f.t0 = b.t1; f.t1 = f.t0 + r.uni(6, 12); f.moving = true; h.t0 = f.t1; wk.segs.push_back(f); wk.segs.push_back(h); T.par["walks"] = 1; }
    k.simS = head + faultS + tail; Knobs keep = k; for (double* p : {&k.pDrop, &k.pDup, &k.pDelay, &k.pBurst, &k.pOutage, &k.pCorrupt, &k.pJump, &k.pBackJump, &k.pSkew, &k.pNonfinite, &k.pIneligible, &k.pInterf, &k.pDead}) *p = 0;
    k.maxMsgs = 1000000; if (!sat) k.radioHz = std::max(std::min(k.radioHz, 2.0), 2.4 / s["sigAveragingTime"]);   // every window sees every transmitter, wherever it begins
    k.gpsHz = std::min(k.gpsHz, 1.0); double cleanNoise = k.radioNoise; k.radioNoise = 0; k.gpsNoise = 0; auto clean = g.events(wk); k = keep; (void)cleanNoise;
    for (auto& ev : clean) { if (ev.m.kind == MK_SENSOR && ev.m.type == ST_LOC) ev.m.v[2] = ev.t > head + faultS ? 4 : ev.m.v[2]; if (ev.m.kind == MK_SENSOR && ev.m.type == ST_ORI && ev.t > head + faultS) ev.m.v[0] = 1; if (ev.m.kind == MK_RADIO && ev.t < head + faultS) ev.m.v[0] = std::min(-1.5, ev.m.v[0] + r.gauss() * 2); }
    if (k.gpsHz > 0) for (auto& ev : clean) if (ev.t > head + faultS && ev.m.kind == MK_NMEA) { ev.m.n1 = 1; ev.m.n2 = 25; }
    double per = r.uni(.1, 1.5); std::vector<Gen::Ev> faulty; double dp = r.p(.5) ? r.uni(.1, 1) : 0, du = r.p(.4) ? r.uni(.05, .3) : 0, co = oom ? 0 : r.p(.6) ? r.uni(.05, .6) : 0, fo = r.p(.4) ? r.uni(.1, 1) : 0, dl = r.p(.4) ? r.uni(.1, .6) : 0, itf = r.p(.4) ? r.uni(10, 40) : 0, gpsOut = r.p(.5) ? r.uni(20, 500) : 0; int itl = (int)r.i(0, (ll)T.world.size() - 1);
    if (oom && r.p(.6)) dp = du = fo = dl = itf = gpsOut = 0;
    auto owner = [&](const std::string& id) { for (size_t l = 0; l < T.world.size(); l++) for (auto& x : T.world[l].tx) if (x.id == id) return (int)l; return -1; };
    for (auto ev : clean) {
      bool w = ev.t >= head && ev.t < head + faultS; if (!w) { faulty.push_back(ev); continue; }
      if (dp > 0 && r.p(dp)) { g.fault("message lost"); continue; }
      ll ts0 = ev.m.ts;
      if (co > 0 && r.p(co)) { if (ev.m.kind == MK_SENSOR && ev.m.type == ST_ORI) {} g.corrupt(ev); ev.m.ts = ts0; }
      if (itf > 0 && ev.m.kind == MK_RADIO) { ev.m.v[0] = std::min(-1.0, ev.m.v[0] + (owner(ev.m.id) == itl ? itf : -itf / 2)); g.fault("interference"); }
      if (gpsOut > 0 && ev.m.kind == MK_SENSOR && ev.m.type == ST_LOC) { ev.m.v[0] += r.gauss() * gpsOut / 111000; ev.m.v[1] += r.gauss() * gpsOut / 111000; g.fault("gps outlier"); }
      if (dl > 0 && r.p(dl)) { ev.arr += r.i(1, 3000); if (ev.arr > ev.m.ts + (ll)((head + faultS - ev.t) * 1000)) ev.arr = ev.m.ts + (ll)((head + faultS - ev.t) * 1000); g.fault("message delayed"); }
      faulty.push_back(ev); if (du > 0 && r.p(du)) { faulty.push_back(ev); g.fault("message duplicated"); }
      if (fo > 0 && r.p(fo)) { Gen::Ev x = ev; x.m.kind = MK_RADIO; x.m.type = (int)r.i(0, 4); x.m.id = "unknown" + std::to_string(r.i(0, 3)); x.m.v[0] = r.uni(-80, -30); faulty.push_back(x); g.fault("foreign signal"); }
    }
    if (!oom && r.p(.35)) {   // the device's clock is wrong for a while and then set right again; within half a minute of the faults' end it has caught up with any step back
      int n = (int)r.i(1, 3); std::vector<std::array<double, 3>> cw; while (n--) { double x = head + r.uni(0, faultS), y = r.p(.3) ? 0 : r.uni(.3, 6); cw.push_back({x, std::min(x + y, head + faultS), (r.p(.6) ? 1 : -1) * (r.p(.3) ? r.uni(1, 500) : r.uni(100, 20000))}); g.fault("clock set wrong and back"); }
      std::vector<bool> used(cw.size());
      for (auto& ev : faulty) for (size_t i = 0; i < cw.size(); i++) if (ev.t >= cw[i][0] && ev.t < head + faultS && (ev.t < cw[i][1] || !used[i])) { used[i] = true; ev.m.ts = std::max<ll>(1, ev.m.ts + (ll)cw[i][2]); break; }
    }
    std::stable_sort(faulty.begin(), faulty.end(), [](const Gen::Ev& a, const Gen::Ev& b) { return a.arr < b.arr; });
    std::vector<Gen::Ev> by; if (T.settings.size() > 2) { auto w2 = g.walker(); Knobs k2 = k; k.simS = std::min(40.0, head + faultS); k.maxMsgs = 250; by = g.events(w2); k = k2; }
    ll t0 = clean.empty() ? 0 : clean[0].arr; double end = head + faultS; size_t a = 0, b = 0, d = 0; bool sorted = r.p(.7); ll judgeFrom = t0 + (ll)((end + 75) * 1000);
    double pOom = oom ? r.uni(.1, .9) : 0; bool creationFail = oom && r.p(.4); if (creationFail) { Op q; q.op = 'R'; q.c = 0; q.n = r.i(0, 60); q.k = r.p(.7) ? 1 : 1000000; T.ops.push_back(q); g.fault("allocation failure while creating a client"); }
    ll ts1 = 0;
    for (ll nx = t0 + (ll)(per * 1000); a < clean.size() || b < faulty.size(); nx += (ll)(per * 1000)) {
      auto put = [&](std::vector<Gen::Ev>& v, size_t& i, int c, bool last) { std::vector<Gen::Ev> bt; while (i < v.size() && (v[i].arr < nx || last)) bt.push_back(v[i++]); if (sorted || c == 1 || (c == 0 && nx > t0 + (ll)(end * 1000))) std::stable_sort(bt.begin(), bt.end(), [](const Gen::Ev& x, const Gen::Ev& y) { return x.m.ts < y.m.ts; });
        if (bt.empty()) return; for (auto& x : bt) { Op o; o.op = 'M'; o.c = c; o.m = x.m; o.tag = x.tag; T.ops.push_back(o); }
        if (c == 0 && nx > t0 + (ll)(head * 1000) && nx <= t0 + (ll)(end * 1000) && pOom > 0 && r.p(pOom)) { Op q; q.op = 'A'; q.c = 0; double u = r.u(); q.n = u < .3 ? r.i(0, 20) : u < .7 ? r.i(0, 150) : r.i(0, 1500); q.k = r.p(.6) ? 1 : r.p(.5) ? r.i(2, 5) : 1000000; if (rare && r.p(.9)) { q.n = -r.i(1, 1000000000); q.k = r.p(.8) ? 1 : q.k; } T.ops.push_back(q); g.fault("allocation failure in a call"); }
        Op o; o.op = 'N'; o.c = c; T.ops.push_back(o); };
      put(clean, a, 1, false); put(faulty, b, 0, false); if (!by.empty()) put(by, d, 2, false);
      if (nx >= judgeFrom && nx - ts1 > 3000) { ts1 = nx; Op x; x.op = 'X'; T.ops.push_back(x); }
    }
    T.par["tol"] = s["useGps"] != 0 && s["fuseGps"] != 0 ? 2.5 : .6; T.par["judgeOri"] = 1;
    ll fFrom = 1ll << 60, cFrom = 1ll << 60; for (auto& ev : clean) { if (ev.t >= head) fFrom = std::min(fFrom, ev.m.ts); if (ev.t >= head + faultS) cFrom = std::min(cFrom, ev.m.ts); }
    T.par["faultFrom"] = (double)fFrom; T.par["cleanFrom"] = (double)cFrom; T.par["frame"] = (double)(traceFrame(T) >> 12);
 T.simMs = (ll)(k.simS * 1000);
  }
  else if (P == "C20") {
    k.minLevels = 1; k.maxLevels = 4; k.minTx = 0; k.maxTx = r.p(.3) ? 20 : 5; k.minRp = 0; k.maxRp = r.p(.3) ? 12 : 4; k.graph = r.p(.7); k.area = .8; k.sharedTx = .25; g.world();
    ll est = 400; for (size_t l = 0; l < T.world.size(); l++) { int tries = (int)r.i(0, 12); bool sweep = r.p(.25); ll start = r.i(0, 40); if (sweep) tries = 40; for (int i = 0; i < tries; i++) { Op o; o.op = 'A'; o.c = r.p(.85) ? (int)l : (int)r.i(0, (ll)T.world.size() - 1); double u = r.u(); o.n = sweep ? start + i : u < .4 ? r.i(0, 30) : u < .8 ? r.i(0, 150) : r.i(0, est); o.k = r.p(.7) ? 1 : r.p(.5) ? r.i(2, 6) : 1000000; T.ops.push_back(o); g.fault("allocation failure while adding a level"); } Op o; o.op = 'B'; o.c = (int)l; T.ops.push_back(o); }
  }
  return std::move(g.t);
}
} // namespace gen
