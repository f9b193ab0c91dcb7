package msg

// The numbers of the commands and notifications on the wire. They are written
// out here, and are not those of the code under test, as both sides of a
// connection must agree on them.
const (
	CommandHandshake uint32 = 1001
	CommandTimedSync uint32 = 1002
	CommandPing      uint32 = 1003

	NoticeNewBlock     uint32 = 2001
	NoticeNewTxs       uint32 = 2002
	NoticeGetObjects   uint32 = 2003
	NoticeObjects      uint32 = 2004
	NoticeChainRequest uint32 = 2006
	NoticeChainEntry   uint32 = 2007
	NoticeTxPool       uint32 = 2008
	NoticeNewLiteBlock uint32 = 2009
	NoticeMissingTxs   uint32 = 2010
)
