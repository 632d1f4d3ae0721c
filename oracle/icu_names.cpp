#include <unicode/uchar.h>
#include <cstdio>
struct B{const char*n;UProperty p;int max;};
int main(){B b[]={{"ccc",UCHAR_CANONICAL_COMBINING_CLASS,255},{"gc",UCHAR_GENERAL_CATEGORY,60},{"bc",UCHAR_BIDI_CLASS,60},{"dt",UCHAR_DECOMPOSITION_TYPE,60},{"gcb",UCHAR_GRAPHEME_CLUSTER_BREAK,60},{"wb",UCHAR_WORD_BREAK,60},{"hst",UCHAR_HANGUL_SYLLABLE_TYPE,60},{"insc",UCHAR_INDIC_SYLLABIC_CATEGORY,60},{"blk",UCHAR_BLOCK,400},{"sc",UCHAR_SCRIPT,300}};
 for(auto&x:b)for(int v=0;v<=x.max;v++){const char*s=u_getPropertyValueName(x.p,v,U_SHORT_PROPERTY_NAME),*l=u_getPropertyValueName(x.p,v,U_LONG_PROPERTY_NAME);if(!s&&!l)continue;printf("%s\t%d\t%s\t%s\n",x.n,v,s?s:l,l?l:"");}}
