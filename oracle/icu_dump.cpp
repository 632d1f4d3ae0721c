#include <unicode/uchar.h>
#include <unicode/unorm2.h>
#include <unicode/uscript.h>
#include <cstdio>
#include <string>
#include <vector>
#include <cstring>
using namespace std;
struct B{const char*n;UProperty p;};
B bins[]={{"wspace",UCHAR_WHITE_SPACE},{"bidi_c",UCHAR_BIDI_CONTROL},{"join_c",UCHAR_JOIN_CONTROL},{"dash",UCHAR_DASH},{"hyphen",UCHAR_HYPHEN},{"qmark",UCHAR_QUOTATION_MARK},{"term",UCHAR_TERMINAL_PUNCTUATION},{"hex",UCHAR_HEX_DIGIT},{"ahex",UCHAR_ASCII_HEX_DIGIT},{"ideo",UCHAR_IDEOGRAPHIC},{"dia",UCHAR_DIACRITIC},{"ext",UCHAR_EXTENDER},{"nchar",UCHAR_NONCHARACTER_CODE_POINT},{"idsb",UCHAR_IDS_BINARY_OPERATOR},{"idst",UCHAR_IDS_TRINARY_OPERATOR},{"radical",UCHAR_RADICAL},{"uideo",UCHAR_UNIFIED_IDEOGRAPH},{"dep",UCHAR_DEPRECATED},{"sd",UCHAR_SOFT_DOTTED},{"loe",UCHAR_LOGICAL_ORDER_EXCEPTION},{"sterm",UCHAR_S_TERM},{"vs",UCHAR_VARIATION_SELECTOR},{"pat_ws",UCHAR_PATTERN_WHITE_SPACE},{"pat_syn",UCHAR_PATTERN_SYNTAX},{"pcm",UCHAR_PREPENDED_CONCATENATION_MARK},{"ri",UCHAR_REGIONAL_INDICATOR},{"ci",UCHAR_CASE_IGNORABLE},{"comp_ex",UCHAR_FULL_COMPOSITION_EXCLUSION},{"math",UCHAR_MATH},{"alpha",UCHAR_ALPHABETIC},{"lower",UCHAR_LOWERCASE},{"upper",UCHAR_UPPERCASE},{"cased",UCHAR_CASED},{"di",UCHAR_DEFAULT_IGNORABLE_CODE_POINT},{"gr_ext",UCHAR_GRAPHEME_EXTEND},{"ids",UCHAR_ID_START},{"idc",UCHAR_ID_CONTINUE},{"xids",UCHAR_XID_START},{"xidc",UCHAR_XID_CONTINUE},{"emoji",UCHAR_EMOJI},{"epres",UCHAR_EMOJI_PRESENTATION},{"emod",UCHAR_EMOJI_MODIFIER},{"ebase",UCHAR_EMOJI_MODIFIER_BASE},{"ecomp",UCHAR_EMOJI_COMPONENT},{"ext_pict",UCHAR_EXTENDED_PICTOGRAPHIC}};
B enums[]={{"bc",UCHAR_BIDI_CLASS},{"dt",UCHAR_DECOMPOSITION_TYPE},{"gc",UCHAR_GENERAL_CATEGORY},{"gcb",UCHAR_GRAPHEME_CLUSTER_BREAK},{"wb",UCHAR_WORD_BREAK},{"hst",UCHAR_HANGUL_SYLLABLE_TYPE},{"insc",UCHAR_INDIC_SYLLABIC_CATEGORY},{"blk",UCHAR_BLOCK},{"sc",UCHAR_SCRIPT}};
int main(){
 UErrorCode e=U_ZERO_ERROR; const UNormalizer2*n=unorm2_getNFKCInstance(&e);
 fprintf(stderr,"%s\n",U_UNICODE_VERSION);
 printf("cp\tdm\tna\tccc\tage");for(auto&b:enums)printf("\t%s",b.n);for(auto&b:bins)printf("\t%s",b.n);puts("");
 for(UChar32 c=0;c<0x110000;c++){
  UChar buf[64];e=U_ZERO_ERROR;int l=unorm2_getRawDecomposition(n,c,buf,64,&e);string dm;
  for(int i=0;i<l;){UChar32 x;U16_NEXT(buf,i,l,x);char t[16];sprintf(t,"%s%04X",dm.size()?" ":"",x);dm+=t;}
  char na[256];e=U_ZERO_ERROR;u_charName(c,U_UNICODE_CHAR_NAME,na,256,&e);
  UVersionInfo v;u_charAge(c,v);
  printf("%04X\t%s\t%s\t%d\t%d.%d",c,dm.c_str(),na,u_getCombiningClass(c),v[0],v[1]);
  for(auto&b:enums){int val=u_getIntPropertyValue(c,b.p);const char*s=u_getPropertyValueName(b.p,val,U_SHORT_PROPERTY_NAME);if(!s)s=u_getPropertyValueName(b.p,val,U_LONG_PROPERTY_NAME);printf("\t%s",s?s:"?");}
  for(auto&b:bins)printf("\t%d",u_hasBinaryProperty(c,b.p));
  puts("");
 }}
