/* official 6502 instruction set; -1 = the mode does not exist for the mnemonic */
/* columns: ACC IMP IMM REL ABS ABX ABY IND INX INY ZP ZPX ZPY */
static const short SPEC_OPC[56][13] = {
[ADC] = {-1, -1, 0x69, -1, 0x6D, 0x7D, 0x79, -1, 0x61, 0x71, 0x65, 0x75, -1},
[AND] = {-1, -1, 0x29, -1, 0x2D, 0x3D, 0x39, -1, 0x21, 0x31, 0x25, 0x35, -1},
[ASL] = {0x0A, -1, -1, -1, 0x0E, 0x1E, -1, -1, -1, -1, 0x06, 0x16, -1},
[BCC] = {-1, -1, -1, 0x90, -1, -1, -1, -1, -1, -1, -1, -1, -1},
[BCS] = {-1, -1, -1, 0xB0, -1, -1, -1, -1, -1, -1, -1, -1, -1},
[BEQ] = {-1, -1, -1, 0xF0, -1, -1, -1, -1, -1, -1, -1, -1, -1},
[BIT] = {-1, -1, -1, -1, 0x2C, -1, -1, -1, -1, -1, 0x24, -1, -1},
[BMI] = {-1, -1, -1, 0x30, -1, -1, -1, -1, -1, -1, -1, -1, -1},
[BNE] = {-1, -1, -1, 0xD0, -1, -1, -1, -1, -1, -1, -1, -1, -1},
[BPL] = {-1, -1, -1, 0x10, -1, -1, -1, -1, -1, -1, -1, -1, -1},
[BRK] = {-1, 0x00, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1},
[BVC] = {-1, -1, -1, 0x50, -1, -1, -1, -1, -1, -1, -1, -1, -1},
[BVS] = {-1, -1, -1, 0x70, -1, -1, -1, -1, -1, -1, -1, -1, -1},
[CLC] = {-1, 0x18, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1},
[CLD] = {-1, 0xD8, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1},
[CLI] = {-1, 0x58, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1},
[CLV] = {-1, 0xB8, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1},
[CMP] = {-1, -1, 0xC9, -1, 0xCD, 0xDD, 0xD9, -1, 0xC1, 0xD1, 0xC5, 0xD5, -1},
[CPX] = {-1, -1, 0xE0, -1, 0xEC, -1, -1, -1, -1, -1, 0xE4, -1, -1},
[CPY] = {-1, -1, 0xC0, -1, 0xCC, -1, -1, -1, -1, -1, 0xC4, -1, -1},
[DEC] = {-1, -1, -1, -1, 0xCE, 0xDE, -1, -1, -1, -1, 0xC6, 0xD6, -1},
[DEX] = {-1, 0xCA, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1},
[DEY] = {-1, 0x88, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1},
[EOR] = {-1, -1, 0x49, -1, 0x4D, 0x5D, 0x59, -1, 0x41, 0x51, 0x45, 0x55, -1},
[INC] = {-1, -1, -1, -1, 0xEE, 0xFE, -1, -1, -1, -1, 0xE6, 0xF6, -1},
[INX] = {-1, 0xE8, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1},
[INY] = {-1, 0xC8, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1},
[JMP] = {-1, -1, -1, -1, 0x4C, -1, -1, 0x6C, -1, -1, -1, -1, -1},
[JSR] = {-1, -1, -1, -1, 0x20, -1, -1, -1, -1, -1, -1, -1, -1},
[LDA] = {-1, -1, 0xA9, -1, 0xAD, 0xBD, 0xB9, -1, 0xA1, 0xB1, 0xA5, 0xB5, -1},
[LDX] = {-1, -1, 0xA2, -1, 0xAE, -1, 0xBE, -1, -1, -1, 0xA6, -1, 0xB6},
[LDY] = {-1, -1, 0xA0, -1, 0xAC, 0xBC, -1, -1, -1, -1, 0xA4, 0xB4, -1},
[LSR] = {0x4A, -1, -1, -1, 0x4E, 0x5E, -1, -1, -1, -1, 0x46, 0x56, -1},
[NOP] = {-1, 0xEA, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1},
[ORA] = {-1, -1, 0x09, -1, 0x0D, 0x1D, 0x19, -1, 0x01, 0x11, 0x05, 0x15, -1},
[PHA] = {-1, 0x48, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1},
[PHP] = {-1, 0x08, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1},
[PLA] = {-1, 0x68, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1},
[PLP] = {-1, 0x28, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1},
[ROL] = {0x2A, -1, -1, -1, 0x2E, 0x3E, -1, -1, -1, -1, 0x26, 0x36, -1},
[ROR] = {0x6A, -1, -1, -1, 0x6E, 0x7E, -1, -1, -1, -1, 0x66, 0x76, -1},
[RTI] = {-1, 0x40, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1},
[RTS] = {-1, 0x60, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1},
[SBC] = {-1, -1, 0xE9, -1, 0xED, 0xFD, 0xF9, -1, 0xE1, 0xF1, 0xE5, 0xF5, -1},
[SEC] = {-1, 0x38, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1},
[SED] = {-1, 0xF8, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1},
[SEI] = {-1, 0x78, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1},
[STA] = {-1, -1, -1, -1, 0x8D, 0x9D, 0x99, -1, 0x81, 0x91, 0x85, 0x95, -1},
[STX] = {-1, -1, -1, -1, 0x8E, -1, -1, -1, -1, -1, 0x86, -1, 0x96},
[STY] = {-1, -1, -1, -1, 0x8C, -1, -1, -1, -1, -1, 0x84, 0x94, -1},
[TAX] = {-1, 0xAA, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1},
[TAY] = {-1, 0xA8, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1},
[TSX] = {-1, 0xBA, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1},
[TXA] = {-1, 0x8A, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1},
[TXS] = {-1, 0x9A, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1},
[TYA] = {-1, 0x98, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1},
};
static const char SPEC_NAME[56][4] = {[ADC] = "ADC", [AND] = "AND", [ASL] = "ASL", [BCC] = "BCC", [BCS] = "BCS", [BEQ] = "BEQ", [BIT] = "BIT", [BMI] = "BMI", [BNE] = "BNE", [BPL] = "BPL", [BRK] = "BRK", [BVC] = "BVC", [BVS] = "BVS", [CLC] = "CLC", [CLD] = "CLD", [CLI] = "CLI", [CLV] = "CLV", [CMP] = "CMP", [CPX] = "CPX", [CPY] = "CPY", [DEC] = "DEC", [DEX] = "DEX", [DEY] = "DEY", [EOR] = "EOR", [INC] = "INC", [INX] = "INX", [INY] = "INY", [JMP] = "JMP", [JSR] = "JSR", [LDA] = "LDA", [LDX] = "LDX", [LDY] = "LDY", [LSR] = "LSR", [NOP] = "NOP", [ORA] = "ORA", [PHA] = "PHA", [PHP] = "PHP", [PLA] = "PLA", [PLP] = "PLP", [ROL] = "ROL", [ROR] = "ROR", [RTI] = "RTI", [RTS] = "RTS", [SBC] = "SBC", [SEC] = "SEC", [SED] = "SED", [SEI] = "SEI", [STA] = "STA", [STX] = "STX", [STY] = "STY", [TAX] = "TAX", [TAY] = "TAY", [TSX] = "TSX", [TXA] = "TXA", [TXS] = "TXS", [TYA] = "TYA"};
