; Minimal Linux runtime for compiled test programs: no library code is involved.
bits 32
section .text
global __start, _out, _outs
extern _main
__start:
    xor ebp, ebp
    mov dword [pos], buf
    call _main
    mov [rc], eax
    call flush
    mov eax, 1
    mov ebx, [rc]
    and ebx, 0xff
    int 0x80
flush:
    mov eax, 4
    mov ebx, 1
    mov ecx, buf
    mov edx, [pos]
    sub edx, ecx
    jz .e
    int 0x80
    mov dword [pos], buf
.e: ret
; void out(unsigned v): 8 hex digits and a newline. Clobbers every register it may (cdecl-like of Smaller C).
_out:
    mov edx, [esp+4]
    mov ecx, 8
    mov eax, [pos]
.l: rol edx, 4
    mov ebx, edx
    and ebx, 15
    mov bl, [hex+ebx]
    mov [eax], bl
    inc eax
    dec ecx
    jnz .l
    mov byte [eax], 10
    inc eax
    mov [pos], eax
    cmp eax, buf+60000
    jb .k
    call flush
.k: mov eax, 0xdeadbeef
    mov ebx, eax
    mov ecx, eax
    mov edx, eax
    mov esi, eax
    mov edi, eax
    ret
section .data
hex: db "0123456789abcdef"
section .bss
pos: resd 1
rc: resd 1
buf: resb 65536
