// constants of the public header with the mnemonics they stand for
#ifdef WDNS_OP_QUERY
	{3, "QUERY", WDNS_OP_QUERY},
#endif
#ifdef WDNS_OP_IQUERY
	{3, "IQUERY", WDNS_OP_IQUERY},
#endif
#ifdef WDNS_OP_STATUS
	{3, "STATUS", WDNS_OP_STATUS},
#endif
#ifdef WDNS_OP_NOTIFY
	{3, "NOTIFY", WDNS_OP_NOTIFY},
#endif
#ifdef WDNS_OP_UPDATE
	{3, "UPDATE", WDNS_OP_UPDATE},
#endif
#ifdef WDNS_R_NOERROR
	{2, "NOERROR", WDNS_R_NOERROR},
#endif
#ifdef WDNS_R_FORMERR
	{2, "FORMERR", WDNS_R_FORMERR},
#endif
#ifdef WDNS_R_SERVFAIL
	{2, "SERVFAIL", WDNS_R_SERVFAIL},
#endif
#ifdef WDNS_R_NXDOMAIN
	{2, "NXDOMAIN", WDNS_R_NXDOMAIN},
#endif
#ifdef WDNS_R_NOTIMP
	{2, "NOTIMP", WDNS_R_NOTIMP},
#endif
#ifdef WDNS_R_REFUSED
	{2, "REFUSED", WDNS_R_REFUSED},
#endif
#ifdef WDNS_R_YXDOMAIN
	{2, "YXDOMAIN", WDNS_R_YXDOMAIN},
#endif
#ifdef WDNS_R_YXRRSET
	{2, "YXRRSET", WDNS_R_YXRRSET},
#endif
#ifdef WDNS_R_NXRRSET
	{2, "NXRRSET", WDNS_R_NXRRSET},
#endif
#ifdef WDNS_R_NOTAUTH
	{2, "NOTAUTH", WDNS_R_NOTAUTH},
#endif
#ifdef WDNS_R_NOTZONE
	{2, "NOTZONE", WDNS_R_NOTZONE},
#endif
#ifdef WDNS_R_BADVERS
	{2, "BADVERS", WDNS_R_BADVERS},
#endif
#ifdef WDNS_CLASS_IN
	{1, "IN", WDNS_CLASS_IN},
#endif
#ifdef WDNS_CLASS_CH
	{1, "CH", WDNS_CLASS_CH},
#endif
#ifdef WDNS_CLASS_HS
	{1, "HS", WDNS_CLASS_HS},
#endif
#ifdef WDNS_CLASS_NONE
	{1, "NONE", WDNS_CLASS_NONE},
#endif
#ifdef WDNS_CLASS_ANY
	{1, "ANY", WDNS_CLASS_ANY},
#endif
#ifdef WDNS_TYPE_A
	{0, "A", WDNS_TYPE_A},
#endif
#ifdef WDNS_TYPE_NS
	{0, "NS", WDNS_TYPE_NS},
#endif
#ifdef WDNS_TYPE_MD
	{0, "MD", WDNS_TYPE_MD},
#endif
#ifdef WDNS_TYPE_MF
	{0, "MF", WDNS_TYPE_MF},
#endif
#ifdef WDNS_TYPE_CNAME
	{0, "CNAME", WDNS_TYPE_CNAME},
#endif
#ifdef WDNS_TYPE_SOA
	{0, "SOA", WDNS_TYPE_SOA},
#endif
#ifdef WDNS_TYPE_MB
	{0, "MB", WDNS_TYPE_MB},
#endif
#ifdef WDNS_TYPE_MG
	{0, "MG", WDNS_TYPE_MG},
#endif
#ifdef WDNS_TYPE_MR
	{0, "MR", WDNS_TYPE_MR},
#endif
#ifdef WDNS_TYPE_NULL
	{0, "NULL", WDNS_TYPE_NULL},
#endif
#ifdef WDNS_TYPE_WKS
	{0, "WKS", WDNS_TYPE_WKS},
#endif
#ifdef WDNS_TYPE_PTR
	{0, "PTR", WDNS_TYPE_PTR},
#endif
#ifdef WDNS_TYPE_HINFO
	{0, "HINFO", WDNS_TYPE_HINFO},
#endif
#ifdef WDNS_TYPE_MINFO
	{0, "MINFO", WDNS_TYPE_MINFO},
#endif
#ifdef WDNS_TYPE_MX
	{0, "MX", WDNS_TYPE_MX},
#endif
#ifdef WDNS_TYPE_TXT
	{0, "TXT", WDNS_TYPE_TXT},
#endif
#ifdef WDNS_TYPE_RP
	{0, "RP", WDNS_TYPE_RP},
#endif
#ifdef WDNS_TYPE_AFSDB
	{0, "AFSDB", WDNS_TYPE_AFSDB},
#endif
#ifdef WDNS_TYPE_X25
	{0, "X25", WDNS_TYPE_X25},
#endif
#ifdef WDNS_TYPE_ISDN
	{0, "ISDN", WDNS_TYPE_ISDN},
#endif
#ifdef WDNS_TYPE_RT
	{0, "RT", WDNS_TYPE_RT},
#endif
#ifdef WDNS_TYPE_NSAP
	{0, "NSAP", WDNS_TYPE_NSAP},
#endif
#ifdef WDNS_TYPE_NSAP_PTR
	{0, "NSAP_PTR", WDNS_TYPE_NSAP_PTR},
#endif
#ifdef WDNS_TYPE_SIG
	{0, "SIG", WDNS_TYPE_SIG},
#endif
#ifdef WDNS_TYPE_KEY
	{0, "KEY", WDNS_TYPE_KEY},
#endif
#ifdef WDNS_TYPE_PX
	{0, "PX", WDNS_TYPE_PX},
#endif
#ifdef WDNS_TYPE_GPOS
	{0, "GPOS", WDNS_TYPE_GPOS},
#endif
#ifdef WDNS_TYPE_AAAA
	{0, "AAAA", WDNS_TYPE_AAAA},
#endif
#ifdef WDNS_TYPE_LOC
	{0, "LOC", WDNS_TYPE_LOC},
#endif
#ifdef WDNS_TYPE_NXT
	{0, "NXT", WDNS_TYPE_NXT},
#endif
#ifdef WDNS_TYPE_EID
	{0, "EID", WDNS_TYPE_EID},
#endif
#ifdef WDNS_TYPE_NIMLOC
	{0, "NIMLOC", WDNS_TYPE_NIMLOC},
#endif
#ifdef WDNS_TYPE_SRV
	{0, "SRV", WDNS_TYPE_SRV},
#endif
#ifdef WDNS_TYPE_ATMA
	{0, "ATMA", WDNS_TYPE_ATMA},
#endif
#ifdef WDNS_TYPE_NAPTR
	{0, "NAPTR", WDNS_TYPE_NAPTR},
#endif
#ifdef WDNS_TYPE_KX
	{0, "KX", WDNS_TYPE_KX},
#endif
#ifdef WDNS_TYPE_CERT
	{0, "CERT", WDNS_TYPE_CERT},
#endif
#ifdef WDNS_TYPE_A6
	{0, "A6", WDNS_TYPE_A6},
#endif
#ifdef WDNS_TYPE_DNAME
	{0, "DNAME", WDNS_TYPE_DNAME},
#endif
#ifdef WDNS_TYPE_SINK
	{0, "SINK", WDNS_TYPE_SINK},
#endif
#ifdef WDNS_TYPE_OPT
	{0, "OPT", WDNS_TYPE_OPT},
#endif
#ifdef WDNS_TYPE_APL
	{0, "APL", WDNS_TYPE_APL},
#endif
#ifdef WDNS_TYPE_DS
	{0, "DS", WDNS_TYPE_DS},
#endif
#ifdef WDNS_TYPE_SSHFP
	{0, "SSHFP", WDNS_TYPE_SSHFP},
#endif
#ifdef WDNS_TYPE_IPSECKEY
	{0, "IPSECKEY", WDNS_TYPE_IPSECKEY},
#endif
#ifdef WDNS_TYPE_RRSIG
	{0, "RRSIG", WDNS_TYPE_RRSIG},
#endif
#ifdef WDNS_TYPE_NSEC
	{0, "NSEC", WDNS_TYPE_NSEC},
#endif
#ifdef WDNS_TYPE_DNSKEY
	{0, "DNSKEY", WDNS_TYPE_DNSKEY},
#endif
#ifdef WDNS_TYPE_DHCID
	{0, "DHCID", WDNS_TYPE_DHCID},
#endif
#ifdef WDNS_TYPE_NSEC3
	{0, "NSEC3", WDNS_TYPE_NSEC3},
#endif
#ifdef WDNS_TYPE_NSEC3PARAM
	{0, "NSEC3PARAM", WDNS_TYPE_NSEC3PARAM},
#endif
#ifdef WDNS_TYPE_TLSA
	{0, "TLSA", WDNS_TYPE_TLSA},
#endif
#ifdef WDNS_TYPE_HIP
	{0, "HIP", WDNS_TYPE_HIP},
#endif
#ifdef WDNS_TYPE_NINFO
	{0, "NINFO", WDNS_TYPE_NINFO},
#endif
#ifdef WDNS_TYPE_RKEY
	{0, "RKEY", WDNS_TYPE_RKEY},
#endif
#ifdef WDNS_TYPE_TALINK
	{0, "TALINK", WDNS_TYPE_TALINK},
#endif
#ifdef WDNS_TYPE_CDS
	{0, "CDS", WDNS_TYPE_CDS},
#endif
#ifdef WDNS_TYPE_CDNSKEY
	{0, "CDNSKEY", WDNS_TYPE_CDNSKEY},
#endif
#ifdef WDNS_TYPE_OPENPGPKEY
	{0, "OPENPGPKEY", WDNS_TYPE_OPENPGPKEY},
#endif
#ifdef WDNS_TYPE_CSYNC
	{0, "CSYNC", WDNS_TYPE_CSYNC},
#endif
#ifdef WDNS_TYPE_SVCB
	{0, "SVCB", WDNS_TYPE_SVCB},
#endif
#ifdef WDNS_TYPE_HTTPS
	{0, "HTTPS", WDNS_TYPE_HTTPS},
#endif
#ifdef WDNS_TYPE_SPF
	{0, "SPF", WDNS_TYPE_SPF},
#endif
#ifdef WDNS_TYPE_UINFO
	{0, "UINFO", WDNS_TYPE_UINFO},
#endif
#ifdef WDNS_TYPE_UID
	{0, "UID", WDNS_TYPE_UID},
#endif
#ifdef WDNS_TYPE_GID
	{0, "GID", WDNS_TYPE_GID},
#endif
#ifdef WDNS_TYPE_UNSPEC
	{0, "UNSPEC", WDNS_TYPE_UNSPEC},
#endif
#ifdef WDNS_TYPE_NID
	{0, "NID", WDNS_TYPE_NID},
#endif
#ifdef WDNS_TYPE_L32
	{0, "L32", WDNS_TYPE_L32},
#endif
#ifdef WDNS_TYPE_L64
	{0, "L64", WDNS_TYPE_L64},
#endif
#ifdef WDNS_TYPE_LP
	{0, "LP", WDNS_TYPE_LP},
#endif
#ifdef WDNS_TYPE_EUI48
	{0, "EUI48", WDNS_TYPE_EUI48},
#endif
#ifdef WDNS_TYPE_EUI64
	{0, "EUI64", WDNS_TYPE_EUI64},
#endif
#ifdef WDNS_TYPE_TKEY
	{0, "TKEY", WDNS_TYPE_TKEY},
#endif
#ifdef WDNS_TYPE_TSIG
	{0, "TSIG", WDNS_TYPE_TSIG},
#endif
#ifdef WDNS_TYPE_IXFR
	{0, "IXFR", WDNS_TYPE_IXFR},
#endif
#ifdef WDNS_TYPE_AXFR
	{0, "AXFR", WDNS_TYPE_AXFR},
#endif
#ifdef WDNS_TYPE_MAILB
	{0, "MAILB", WDNS_TYPE_MAILB},
#endif
#ifdef WDNS_TYPE_MAILA
	{0, "MAILA", WDNS_TYPE_MAILA},
#endif
#ifdef WDNS_TYPE_ANY
	{0, "ANY", WDNS_TYPE_ANY},
#endif
#ifdef WDNS_TYPE_URI
	{0, "URI", WDNS_TYPE_URI},
#endif
#ifdef WDNS_TYPE_CAA
	{0, "CAA", WDNS_TYPE_CAA},
#endif
#ifdef WDNS_TYPE_TA
	{0, "TA", WDNS_TYPE_TA},
#endif
#ifdef WDNS_TYPE_DLV
	{0, "DLV", WDNS_TYPE_DLV},
#endif
