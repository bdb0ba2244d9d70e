; Minimal DOS runtime (tiny and small models).
bits 16
section .text
global __start, _out
extern _main
__start:
    push ss
    pop ds
    push ss
    pop es
    cld
    call _main
    push ax
    call flush
    pop ax
    mov ah, 0x4c
    int 0x21
flush:
    mov dx, buf
    mov cx, [pos]
    jcxz .e
    mov bx, 1
    mov ah, 0x40
    int 0x21
    mov word [pos], 0
.e: ret
_out:
    push bp
    mov bp, sp
    mov dx, [bp+4]
    mov cx, 4
    mov si, [pos]
    add si, buf
.l: rol dx, 4
    mov bx, dx
    and bx, 15
    mov al, [hex+bx]
    mov [si], al
    inc si
    loop .l
    mov byte [si], 10
    add word [pos], 5
    cmp word [pos], 1990
    jb .k
    call flush
.k: mov eax, 0xdeadbeef
    mov ebx, eax
    mov ecx, eax
    mov edx, eax
    mov esi, eax
    mov edi, eax
    pop bp
    ret
section .data
hex: db "0123456789abcdef"
pos: dw 0
section .bss
buf: resb 2000
