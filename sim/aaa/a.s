
// func mprotect(addr, n, prot uintptr) uintptr
TEXT ·mprotect(SB),4,$0-32
	MOVQ addr+0(FP), DI
	MOVQ n+8(FP), SI
	MOVQ prot+16(FP), DX
	MOVQ $10, AX
	SYSCALL
	MOVQ AX, ret+24(FP)
	RET

TEXT ·getfp(SB),4,$0-8
	MOVQ BP, ret+0(FP)
	RET
