// Device and owner service information (C16).
package fdoshared

func SIM_IDS.Contains(h, id) (r)
  props C16 C07
  nopanic C10 C16
  pure
  ensures [is one of them] r == (countfor(i, len(*h), (*h)[i] == id) > 0)

func SIM_IDS.FindDelta(h, other) (r)
  props C16 C07
  nopanic C10 C16
  ensures [the missing ones] len(r) == countfor(i, len(*h), !(countfor(j, len(other), other[j] == (*h)[i]) > 0))

spec sim_text(id) = id == SIM_DEVMOD_OS || id == SIM_DEVMOD_ARCH || id == SIM_DEVMOD_VERSION || id == SIM_DEVMOD_DEVICE || id == SIM_DEVMOD_SEP || id == SIM_DEVMOD_BIN
spec sim_typed(x) = (x.ServiceInfoKey == SIM_DEVMOD_ACTIVE ==> decok(bool, x.ServiceInfoVal)) && (sim_text(x.ServiceInfoKey) ==> decok(string, x.ServiceInfoVal)) && (x.ServiceInfoKey == SIM_DEVMOD_NUMMODULES ==> decok(uint, x.ServiceInfoVal)) && (x.ServiceInfoKey == SIM_DEVMOD_MODULES ==> decok("[]any", x.ServiceInfoVal))

func DecodeSims(sims) (r, err)
  props C16 C07
  nopanic C10 C16
  ensures [result or error] err == nil ==> r != nil
  ensures [every known item has its type] err == nil ==> (forall i in 0..len(sims): sim_typed(sims[i]))
  ensures [active] err == nil ==> (countfor(i, len(sims), sims[i].ServiceInfoKey == SIM_DEVMOD_ACTIVE) > 0 ==> r.SIM_DEVMOD_ACTIVE != nil)
  ensures [active as sent last] err == nil && r.SIM_DEVMOD_ACTIVE != nil ==> (exists i in 0..len(sims): sims[i].ServiceInfoKey == SIM_DEVMOD_ACTIVE && *r.SIM_DEVMOD_ACTIVE == dec(bool, sims[i].ServiceInfoVal) && (forall j in i+1..len(sims): sims[j].ServiceInfoKey != SIM_DEVMOD_ACTIVE))
  ensures [OS] err == nil ==> (countfor(i, len(sims), sims[i].ServiceInfoKey == SIM_DEVMOD_OS) > 0 ==> r.SIM_DEVMOD_OS != nil)
  ensures [OS as sent last] err == nil && r.SIM_DEVMOD_OS != nil ==> (exists i in 0..len(sims): sims[i].ServiceInfoKey == SIM_DEVMOD_OS && *r.SIM_DEVMOD_OS == dec(string, sims[i].ServiceInfoVal) && (forall j in i+1..len(sims): sims[j].ServiceInfoKey != SIM_DEVMOD_OS))
  ensures [architecture] err == nil ==> (countfor(i, len(sims), sims[i].ServiceInfoKey == SIM_DEVMOD_ARCH) > 0 ==> r.SIM_DEVMOD_ARCH != nil)
  ensures [architecture as sent last] err == nil && r.SIM_DEVMOD_ARCH != nil ==> (exists i in 0..len(sims): sims[i].ServiceInfoKey == SIM_DEVMOD_ARCH && *r.SIM_DEVMOD_ARCH == dec(string, sims[i].ServiceInfoVal) && (forall j in i+1..len(sims): sims[j].ServiceInfoKey != SIM_DEVMOD_ARCH))
  ensures [version] err == nil ==> (countfor(i, len(sims), sims[i].ServiceInfoKey == SIM_DEVMOD_VERSION) > 0 ==> r.SIM_DEVMOD_VERSION != nil)
  ensures [version as sent last] err == nil && r.SIM_DEVMOD_VERSION != nil ==> (exists i in 0..len(sims): sims[i].ServiceInfoKey == SIM_DEVMOD_VERSION && *r.SIM_DEVMOD_VERSION == dec(string, sims[i].ServiceInfoVal) && (forall j in i+1..len(sims): sims[j].ServiceInfoKey != SIM_DEVMOD_VERSION))
  ensures [device model] err == nil ==> (countfor(i, len(sims), sims[i].ServiceInfoKey == SIM_DEVMOD_DEVICE) > 0 ==> r.SIM_DEVMOD_DEVICE != nil)
  ensures [device model as sent last] err == nil && r.SIM_DEVMOD_DEVICE != nil ==> (exists i in 0..len(sims): sims[i].ServiceInfoKey == SIM_DEVMOD_DEVICE && *r.SIM_DEVMOD_DEVICE == dec(string, sims[i].ServiceInfoVal) && (forall j in i+1..len(sims): sims[j].ServiceInfoKey != SIM_DEVMOD_DEVICE))
  ensures [separator] err == nil ==> (countfor(i, len(sims), sims[i].ServiceInfoKey == SIM_DEVMOD_SEP) > 0 ==> r.SIM_DEVMOD_SEP != nil)
  ensures [separator as sent last] err == nil && r.SIM_DEVMOD_SEP != nil ==> (exists i in 0..len(sims): sims[i].ServiceInfoKey == SIM_DEVMOD_SEP && *r.SIM_DEVMOD_SEP == dec(string, sims[i].ServiceInfoVal) && (forall j in i+1..len(sims): sims[j].ServiceInfoKey != SIM_DEVMOD_SEP))
  ensures [machine formats] err == nil ==> (countfor(i, len(sims), sims[i].ServiceInfoKey == SIM_DEVMOD_BIN) > 0 ==> r.SIM_DEVMOD_BIN != nil)
  ensures [machine formats as sent last] err == nil && r.SIM_DEVMOD_BIN != nil ==> (exists i in 0..len(sims): sims[i].ServiceInfoKey == SIM_DEVMOD_BIN && *r.SIM_DEVMOD_BIN == dec(string, sims[i].ServiceInfoVal) && (forall j in i+1..len(sims): sims[j].ServiceInfoKey != SIM_DEVMOD_BIN))
  ensures [number of modules] err == nil ==> (countfor(i, len(sims), sims[i].ServiceInfoKey == SIM_DEVMOD_NUMMODULES) > 0 ==> r.SIM_DEVMOD_NUMMODULES != nil)
  ensures [number of modules as sent last] err == nil && r.SIM_DEVMOD_NUMMODULES != nil ==> (exists i in 0..len(sims): sims[i].ServiceInfoKey == SIM_DEVMOD_NUMMODULES && *r.SIM_DEVMOD_NUMMODULES == dec(uint, sims[i].ServiceInfoVal) && (forall j in i+1..len(sims): sims[j].ServiceInfoKey != SIM_DEVMOD_NUMMODULES))
  ensures [modules] err == nil ==> (countfor(i, len(sims), sims[i].ServiceInfoKey == SIM_DEVMOD_MODULES) > 0 ==> r.SIM_DEVMOD_MODULES != nil)

package do_to2

// the items every device has to report
spec reports(sims, id) = countfor(i, len(sims), sims[i].ServiceInfoKey == id) > 0
spec all_reported(sims) = reports(sims, SIM_DEVMOD_ACTIVE) && reports(sims, SIM_DEVMOD_OS) && reports(sims, SIM_DEVMOD_ARCH) && reports(sims, SIM_DEVMOD_VERSION) && reports(sims, SIM_DEVMOD_DEVICE) && reports(sims, SIM_DEVMOD_SEP) && reports(sims, SIM_DEVMOD_BIN) && reports(sims, SIM_DEVMOD_NUMMODULES) && reports(sims, SIM_DEVMOD_MODULES)

func ValidateDeviceSIMs(guid, sims) (r, err)
  props C16 C07
  nopanic C10 C16
  ensures [result or error] err == nil ==> r != nil
  ensures [mandatory items present] err == nil ==> all_reported(sims)
  ensures [every known item has its type] err == nil ==> (forall i in 0..len(sims): sim_typed(sims[i]))
  ensures [mandatory values decoded] err == nil ==> r.SIM_DEVMOD_ACTIVE != nil && r.SIM_DEVMOD_OS != nil && r.SIM_DEVMOD_ARCH != nil && r.SIM_DEVMOD_VERSION != nil && r.SIM_DEVMOD_DEVICE != nil && r.SIM_DEVMOD_SEP != nil && r.SIM_DEVMOD_BIN != nil && r.SIM_DEVMOD_NUMMODULES != nil && r.SIM_DEVMOD_MODULES != nil

// one exchange of service information
func DoTo2.DeviceServiceInfo68(h, w, r)
  props C16 C07 C21
  join
  nopanic C10 C07
  requires wf2(h, w, r)
  requires inv2(s_old(r))
  requires iop_config(h.ctx)
  modifies kv, response, tail(h.listenerDB.prefix), tail(h.listenerDB.mapperGuidPrefix)
  let s = s_old(r)
  let n = s_new(r)
  let m = dec(fdoshared.DeviceServiceInfo68, plain2(r))
  let q = dec(OwnerServiceInfo69, reply2(r))
  let ok = resp_status() == 200
  let go = ok || progressed(r)
  ensures [session created by this service C07 C21] go ==> s_has(r)
  ensures [after service info ready or service info only] go ==> s.PrevCMD == 67 || s.PrevCMD == 69
  ensures [authentic under the session keys C07 C21] go ==> sealed2(r)
  ensures [service information C07 C21] go ==> decok(fdoshared.DeviceServiceInfo68, plain2(r))
  ensures [nothing after the owner is done] go ==> !s.OwnerSIMsFinishedSending
  ensures [mandatory items C16] go && !m.IsMoreServiceInfo && s.OwnerSIMsSendCounter == 0 ==> all_reported(n.DeviceSIMs)
  ensures [items typed C16] go && !m.IsMoreServiceInfo && s.OwnerSIMsSendCounter == 0 ==> (forall i in 0..len(n.DeviceSIMs): sim_typed(n.DeviceSIMs[i]))
  ensures [device items collected C16] go ==> len(n.DeviceSIMs) == len(s.DeviceSIMs) + len(m.ServiceInfo) && (forall i in 0..len(s.DeviceSIMs): n.DeviceSIMs[i] == s.DeviceSIMs[i]) && (forall i in 0..len(m.ServiceInfo): n.DeviceSIMs[len(s.DeviceSIMs)+i] == m.ServiceInfo[i])
  ensures [progress recorded] go ==> n.PrevCMD == 69 && kvttl(session_key(bearer(r))) == minutes10()
  ensures [session otherwise kept C07 C21] go ==> kept2(n, s) && keys2(n, s) && n.OwnerSIMs == s.OwnerSIMs && n.MaxDeviceServiceInfoSz == s.MaxDeviceServiceInfoSz
  ensures [owner waits for the device C16] go && m.IsMoreServiceInfo ==> n.OwnerSIMsSendCounter == s.OwnerSIMsSendCounter && !n.OwnerSIMsFinishedSending
  ensures [one step C16] go && !m.IsMoreServiceInfo ==> n.OwnerSIMsSendCounter == s.OwnerSIMsSendCounter + 1 && n.OwnerSIMsFinishedSending == (n.OwnerSIMsSendCounter >= len(s.OwnerSIMs))
  ensures [invariant] go ==> inv2(n)
  ensures [nothing else stored C07 C21] kv_only_or("lstdb-", session_key(bearer(r)))
  let garbled = fault2(s.Guid, 68, testcom.FIDO_LISTENER_DEVICE_68_BAD_ENC_WRAPPING)
  let badpay = garbled || fault2(s.Guid, 68, testcom.FIDO_LISTENER_DEVICE_68_BAD_ENCODING)
  ensures [encrypted under the session keys C07 C21] ok && !garbled ==> replied2(r)
  ensures [well formed C07 C21] ok && !badpay ==> decok(OwnerServiceInfo69, reply2(r))
  ensures [nothing while the device has more C16] ok && !badpay && m.IsMoreServiceInfo ==> len(q.ServiceInfo) == 0 && !q.IsDone && !q.IsMoreServiceInfo
  ensures [the next owner item C16] ok && !badpay && !m.IsMoreServiceInfo && s.OwnerSIMsSendCounter < len(s.OwnerSIMs) ==> len(q.ServiceInfo) == 1 && q.ServiceInfo[0] == s.OwnerSIMs[s.OwnerSIMsSendCounter]
  ensures [no item twice C16] ok && !badpay && !m.IsMoreServiceInfo && s.OwnerSIMsSendCounter >= len(s.OwnerSIMs) ==> len(q.ServiceInfo) == 0
  ensures [done when all are sent C16] ok && !badpay && !m.IsMoreServiceInfo ==> q.IsDone == (s.OwnerSIMsSendCounter + 1 >= len(s.OwnerSIMs)) && q.IsMoreServiceInfo == (s.OwnerSIMsSendCounter + 1 < len(s.OwnerSIMs))
  ensures [answer C07] ok ==> answered(r, "69")
