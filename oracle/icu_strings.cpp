// reads lines of hex code points, prints what ICU says: "seg" -> UTF-8 boundaries, "norm" -> NFD|NFC|NFKD|NFKC
#include <unicode/brkiter.h>
#include <unicode/normalizer2.h>
#include <unicode/unistr.h>
#include <cstdio>
#include <cstring>
#include <iostream>
#include <sstream>
using namespace icu; using namespace std;
int main(int c,char**v){UErrorCode e=U_ZERO_ERROR;BreakIterator*bi=BreakIterator::createCharacterInstance(Locale::getRoot(),e);
 const Normalizer2*n[4]={Normalizer2::getNFDInstance(e),Normalizer2::getNFCInstance(e),Normalizer2::getNFKDInstance(e),Normalizer2::getNFKCInstance(e)};
 string l;while(getline(cin,l)){UnicodeString s;istringstream is(l);string t;while(is>>t)s.append((UChar32)stoul(t,0,16));
  if(!strcmp(v[1],"seg")){bi->setText(s);bi->first();string o;for(int p=bi->next();p!=BreakIterator::DONE;p=bi->next()){string u;s.tempSubString(0,p).toUTF8String(u);if(o.size())o+=" ";o+=to_string(u.size());}puts(o.c_str());}
  else{string o;for(int i=0;i<4;i++){UErrorCode e2=U_ZERO_ERROR;UnicodeString r=n[i]->normalize(s,e2);if(i)o+="|";for(int k=0;k<r.length();){UChar32 x=r.char32At(k);char b[16];sprintf(b,"%s%04X",k?" ":"",x);o+=b;k+=U16_LENGTH(x);}}puts(o.c_str());}
 }}
