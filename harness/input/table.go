package input

import . "github.com/metafates/bento"

// keyRow is one documented terminal sequence and the key it stands for.
type keyRow struct {
	seq string
	key KeyType
	alt bool
}

// table lists the sequences of xterm, vt100, rxvt-unicode, the Linux console
// and PowerShell that applications rely on.
var table = []keyRow{
	{"\x1b[A", KeyUp, false},
	{"\x1b[B", KeyDown, false},
	{"\x1b[C", KeyRight, false},
	{"\x1b[D", KeyLeft, false},
	{"\x1b[1;2A", KeyShiftUp, false},
	{"\x1b[1;2B", KeyShiftDown, false},
	{"\x1b[1;2C", KeyShiftRight, false},
	{"\x1b[1;2D", KeyShiftLeft, false},
	{"\x1b[OA", KeyShiftUp, false},
	{"\x1b[OB", KeyShiftDown, false},
	{"\x1b[OC", KeyShiftRight, false},
	{"\x1b[OD", KeyShiftLeft, false},
	{"\x1b[a", KeyShiftUp, false},
	{"\x1b[b", KeyShiftDown, false},
	{"\x1b[c", KeyShiftRight, false},
	{"\x1b[d", KeyShiftLeft, false},
	{"\x1b[1;3A", KeyUp, true},
	{"\x1b[1;3B", KeyDown, true},
	{"\x1b[1;3C", KeyRight, true},
	{"\x1b[1;3D", KeyLeft, true},
	{"\x1b[1;4A", KeyShiftUp, true},
	{"\x1b[1;4B", KeyShiftDown, true},
	{"\x1b[1;4C", KeyShiftRight, true},
	{"\x1b[1;4D", KeyShiftLeft, true},
	{"\x1b[1;5A", KeyCtrlUp, false},
	{"\x1b[1;5B", KeyCtrlDown, false},
	{"\x1b[1;5C", KeyCtrlRight, false},
	{"\x1b[1;5D", KeyCtrlLeft, false},
	{"\x1b[Oa", KeyCtrlUp, true},
	{"\x1b[Ob", KeyCtrlDown, true},
	{"\x1b[Oc", KeyCtrlRight, true},
	{"\x1b[Od", KeyCtrlLeft, true},
	{"\x1b[1;6A", KeyCtrlShiftUp, false},
	{"\x1b[1;6B", KeyCtrlShiftDown, false},
	{"\x1b[1;6C", KeyCtrlShiftRight, false},
	{"\x1b[1;6D", KeyCtrlShiftLeft, false},
	{"\x1b[1;7A", KeyCtrlUp, true},
	{"\x1b[1;7B", KeyCtrlDown, true},
	{"\x1b[1;7C", KeyCtrlRight, true},
	{"\x1b[1;7D", KeyCtrlLeft, true},
	{"\x1b[1;8A", KeyCtrlShiftUp, true},
	{"\x1b[1;8B", KeyCtrlShiftDown, true},
	{"\x1b[1;8C", KeyCtrlShiftRight, true},
	{"\x1b[1;8D", KeyCtrlShiftLeft, true},
	{"\x1b[Z", KeyShiftTab, false},
	{"\x1b[2~", KeyInsert, false},
	{"\x1b[3;2~", KeyInsert, true},
	{"\x1b[3~", KeyDelete, false},
	{"\x1b[3;3~", KeyDelete, true},
	{"\x1b[5~", KeyPgUp, false},
	{"\x1b[5;3~", KeyPgUp, true},
	{"\x1b[5;5~", KeyCtrlPgUp, false},
	{"\x1b[5^", KeyCtrlPgUp, false},
	{"\x1b[5;7~", KeyCtrlPgUp, true},
	{"\x1b[6~", KeyPgDown, false},
	{"\x1b[6;3~", KeyPgDown, true},
	{"\x1b[6;5~", KeyCtrlPgDown, false},
	{"\x1b[6^", KeyCtrlPgDown, false},
	{"\x1b[6;7~", KeyCtrlPgDown, true},
	{"\x1b[1~", KeyHome, false},
	{"\x1b[H", KeyHome, false},
	{"\x1b[1;3H", KeyHome, true},
	{"\x1b[1;5H", KeyCtrlHome, false},
	{"\x1b[1;7H", KeyCtrlHome, true},
	{"\x1b[1;2H", KeyShiftHome, false},
	{"\x1b[1;4H", KeyShiftHome, true},
	{"\x1b[1;6H", KeyCtrlShiftHome, false},
	{"\x1b[1;8H", KeyCtrlShiftHome, true},
	{"\x1b[4~", KeyEnd, false},
	{"\x1b[F", KeyEnd, false},
	{"\x1b[1;3F", KeyEnd, true},
	{"\x1b[1;5F", KeyCtrlEnd, false},
	{"\x1b[1;7F", KeyCtrlEnd, true},
	{"\x1b[1;2F", KeyShiftEnd, false},
	{"\x1b[1;4F", KeyShiftEnd, true},
	{"\x1b[1;6F", KeyCtrlShiftEnd, false},
	{"\x1b[1;8F", KeyCtrlShiftEnd, true},
	{"\x1b[7~", KeyHome, false},
	{"\x1b[7^", KeyCtrlHome, false},
	{"\x1b[7$", KeyShiftHome, false},
	{"\x1b[7@", KeyCtrlShiftHome, false},
	{"\x1b[8~", KeyEnd, false},
	{"\x1b[8^", KeyCtrlEnd, false},
	{"\x1b[8$", KeyShiftEnd, false},
	{"\x1b[8@", KeyCtrlShiftEnd, false},
	{"\x1b[[A", KeyF1, false},
	{"\x1b[[B", KeyF2, false},
	{"\x1b[[C", KeyF3, false},
	{"\x1b[[D", KeyF4, false},
	{"\x1b[[E", KeyF5, false},
	{"\x1bOP", KeyF1, false},
	{"\x1bOQ", KeyF2, false},
	{"\x1bOR", KeyF3, false},
	{"\x1bOS", KeyF4, false},
	{"\x1b[1;3P", KeyF1, true},
	{"\x1b[1;3Q", KeyF2, true},
	{"\x1b[1;3R", KeyF3, true},
	{"\x1b[1;3S", KeyF4, true},
	{"\x1b[11~", KeyF1, false},
	{"\x1b[12~", KeyF2, false},
	{"\x1b[13~", KeyF3, false},
	{"\x1b[14~", KeyF4, false},
	{"\x1b[15~", KeyF5, false},
	{"\x1b[15;3~", KeyF5, true},
	{"\x1b[17~", KeyF6, false},
	{"\x1b[18~", KeyF7, false},
	{"\x1b[19~", KeyF8, false},
	{"\x1b[20~", KeyF9, false},
	{"\x1b[21~", KeyF10, false},
	{"\x1b[17;3~", KeyF6, true},
	{"\x1b[18;3~", KeyF7, true},
	{"\x1b[19;3~", KeyF8, true},
	{"\x1b[20;3~", KeyF9, true},
	{"\x1b[21;3~", KeyF10, true},
	{"\x1b[23~", KeyF11, false},
	{"\x1b[24~", KeyF12, false},
	{"\x1b[23;3~", KeyF11, true},
	{"\x1b[24;3~", KeyF12, true},
	{"\x1b[1;2P", KeyF13, false},
	{"\x1b[1;2Q", KeyF14, false},
	{"\x1b[25~", KeyF13, false},
	{"\x1b[26~", KeyF14, false},
	{"\x1b[25;3~", KeyF13, true},
	{"\x1b[26;3~", KeyF14, true},
	{"\x1b[1;2R", KeyF15, false},
	{"\x1b[1;2S", KeyF16, false},
	{"\x1b[28~", KeyF15, false},
	{"\x1b[29~", KeyF16, false},
	{"\x1b[28;3~", KeyF15, true},
	{"\x1b[29;3~", KeyF16, true},
	{"\x1b[15;2~", KeyF17, false},
	{"\x1b[17;2~", KeyF18, false},
	{"\x1b[18;2~", KeyF19, false},
	{"\x1b[19;2~", KeyF20, false},
	{"\x1b[31~", KeyF17, false},
	{"\x1b[32~", KeyF18, false},
	{"\x1b[33~", KeyF19, false},
	{"\x1b[34~", KeyF20, false},
	{"\x1bOA", KeyUp, false},
	{"\x1bOB", KeyDown, false},
	{"\x1bOC", KeyRight, false},
	{"\x1bOD", KeyLeft, false},
}
