// Builds small ELF images in memory.
#pragma once
#include <elf.h>
#include <string>
#include <vector>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
namespace elfgen {
struct A32 { typedef Elf32_Ehdr Ehdr; typedef Elf32_Shdr Shdr; typedef Elf32_Phdr Phdr; typedef Elf32_Sym Sym; enum { cls = ELFCLASS32 }; };
struct A64 { typedef Elf64_Ehdr Ehdr; typedef Elf64_Shdr Shdr; typedef Elf64_Phdr Phdr; typedef Elf64_Sym Sym; enum { cls = ELFCLASS64 }; };
struct Str { std::string s = std::string(1, '\0'); uint32_t add(const char* n) { if (!*n) return 0; uint32_t o = s.size(); s.append(n); s.push_back(0); return o; } };
template <class A> struct Image {
  typename A::Ehdr h{}; std::vector<typename A::Shdr> sh; std::vector<std::string> body; std::vector<typename A::Phdr> ph; Str names; size_t start = 0x200; int shstr = -1;
  Image(int type, int machine) { memcpy(h.e_ident, ELFMAG, 4); h.e_ident[EI_CLASS] = A::cls; h.e_ident[EI_DATA] = ELFDATA2LSB; h.e_type = type; h.e_machine = machine; }
  int add(const char* name, uint32_t type, const std::string& data) { typename A::Shdr s{}; s.sh_name = names.add(name); s.sh_type = type; s.sh_size = data.size(); sh.push_back(s); body.push_back(data); return sh.size() - 1; }
  // lays out: header, program headers, section bodies, section headers; returns size
  size_t finish(unsigned char** out, bool many = false) {
    shstr = add(".shstrtab", SHT_STRTAB, ""); body[shstr] = names.s; sh[shstr].sh_size = names.s.size();
    size_t at = start; for (size_t i = 0; i < sh.size(); i++) { if (sh[i].sh_type == SHT_NULL) continue; sh[i].sh_offset = at; at += (body[i].size() + 15) / 16 * 16 + 16; }
    size_t shoff = at, n = shoff + sh.size() * sizeof(typename A::Shdr); h.e_shoff = shoff; h.e_phoff = sizeof h; h.e_phnum = ph.size(); h.e_shentsize = sizeof(typename A::Shdr); h.e_phentsize = sizeof(typename A::Phdr); h.e_ehsize = sizeof h;
    if (many) { h.e_shnum = 0; sh[0].sh_size = sh.size(); sh[0].sh_link = shstr; h.e_shstrndx = 0xffff; } else { h.e_shnum = sh.size(); h.e_shstrndx = shstr; }
    unsigned char* d = (unsigned char*)calloc(n, 1); memcpy(d, &h, sizeof h); if (ph.size()) memcpy(d + h.e_phoff, ph.data(), ph.size() * sizeof(typename A::Phdr));
    for (size_t i = 0; i < sh.size(); i++) if (sh[i].sh_type != SHT_NULL) memcpy(d + sh[i].sh_offset, body[i].data(), body[i].size());
    memcpy(d + shoff, sh.data(), sh.size() * sizeof(typename A::Shdr)); *out = d; return n;
  }
};
template <class T> void put(std::string& s, const T& v) { s.append((const char*)&v, sizeof v); }
}
