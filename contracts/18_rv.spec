// Rendezvous instructions and addresses (C18).
package fdoshared

// the four-byte form of an IPv4 address (also when written as IPv4 in IPv6), the sixteen-byte form of the others
spec ip_is4(b) = at(b, 0) == 0 && at(b, 1) == 0 && at(b, 2) == 0 && at(b, 3) == 0 && at(b, 4) == 0 && at(b, 5) == 0 && at(b, 6) == 0 && at(b, 7) == 0 && at(b, 8) == 0 && at(b, 9) == 0 && at(b, 10) == 255 && at(b, 11) == 255
spec ip_form(b) = ite(ip_is4(b), sub(b, 12, 4), b)
spec url_proto_ok(u) = url_scheme(u) == "http" || url_scheme(u) == "https"
spec url_usable(u) = url_ok(u) && url_proto_ok(u) && len(url_host(u)) > 0 && (len(url_port(u)) == 0 || parseuint_ok(url_port(u), 10, 16))
spec url_addr_port(u) = ite(len(url_port(u)) > 0, parseuint(url_port(u), 10), ite(url_scheme(u) == "https", 443, 80))
spec url_transport(u) = ite(url_scheme(u) == "https", ProtHTTPS, ProtHTTP)

func FdoIPAddressFromBytes(ipvBytes) (r, err)
  props C18
  nopanic C10 C18
  ensures [IPv4 or IPv6 length only] err == nil <==> len(ipvBytes) == 4 || len(ipvBytes) == 16
  ensures [same bytes] err == nil ==> bytes(r) == bytes(ipvBytes)

func FdoIPAddressFromString(ipStr) (r, err)
  props C18
  nopanic C10 C18
  ensures [addresses only] err == nil <==> parseip_ok(ipStr)
  ensures [in its own length] err == nil ==> bytes(r) == ip_form(parseip(ipStr))

func UrlToTOAddrEntry(inurl) (r, err)
  props C18
  nopanic C10 C18
  ensures [usable URLs only] err == nil <==> url_usable(inurl)
  ensures [result] err == nil ==> r != nil
  ensures [port and protocol] err == nil ==> r.RVPort == url_addr_port(inurl) && r.RVProtocol == url_transport(inurl)
  ensures [an address] err == nil && parseip_ok(url_host(inurl)) ==> r.RVIP != nil && r.RVDNS == nil && bytes(*r.RVIP) == ip_form(parseip(url_host(inurl)))
  ensures [or a name] err == nil && !parseip_ok(url_host(inurl)) ==> r.RVIP == nil && r.RVDNS != nil && *r.RVDNS == url_host(inurl)

func UrlToRvDirective(inurl) (r, err)
  props C18
  nopanic C10 C18
  ensures [usable URLs only] err == nil <==> url_usable(inurl)
  ensures [protocol and ports] err == nil ==> len(r) == 4 && r[0].Key == RVProtocol && decok(RVProtocolValue, r[0].Value) && dec(RVProtocolValue, r[0].Value) == ite(url_scheme(inurl) == "https", RVProtHttps, RVProtHttp) && r[1].Key == RVDevPort && decok(uint16, r[1].Value) && dec(uint16, r[1].Value) == url_addr_port(inurl) && r[2].Key == RVOwnerPort && decok(uint16, r[2].Value) && dec(uint16, r[2].Value) == url_addr_port(inurl)
  ensures [address] err == nil && parseip_ok(url_host(inurl)) ==> r[3].Key == RVIPAddress && decok(FdoIPAddress, r[3].Value) && bytes(dec(FdoIPAddress, r[3].Value)) == ip_form(parseip(url_host(inurl)))
  ensures [name] err == nil && !parseip_ok(url_host(inurl)) ==> r[3].Key == RVDns && decok(string, r[3].Value) && dec(string, r[3].Value) == url_host(inurl)

spec is_flag(k) = k == RVDevOnly || k == RVOwnerOnly || k == RVUserInput || k == RVBypass

func RVVariable.IsBoolean(h) (r)
  props C18
  nopanic C10 C18
  pure
  ensures [flags] r <==> h == RVDevOnly || h == RVOwnerOnly || h == RVUserInput || h == RVBypass

// an instruction that names no audience is for both
spec for_owner(x) = x.RVOwnerOnly || !x.RVDevOnly
spec for_device(x) = x.RVDevOnly || !x.RVOwnerOnly

func MappedRVInfo.GetOwnerOnly(h) (r)
  props C18
  nopanic C10 C18
  ensures [exactly the owner's] len(r) == countfor(i, len(*h), for_owner((*h)[i])) && (forall j in 0..len(*h): for_owner((*h)[j]) ==> r[countfor(i, j, for_owner((*h)[i]))] == (*h)[j])

func MappedRVInfo.GetDevOnly(h) (r)
  props C18
  nopanic C10 C18
  ensures [exactly the device's] len(r) == countfor(i, len(*h), for_device((*h)[i])) && (forall j in 0..len(*h): for_device((*h)[j]) ==> r[countfor(i, j, for_device((*h)[i]))] == (*h)[j])

func RendezvousDirective.Validate(h) (err)
  props C18
  nopanic C10 C18
  ensures [flags carry no value] err == nil ==> (forall i in 0..len(*h): is_flag((*h)[i].Key) ==> (*h)[i].Value == nil)
