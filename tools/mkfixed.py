import subprocess
M={'identity of a string':'C10','printed SyntaxWarnings':'C03','Lemmatizer.candidates':'C07','NotImplementedError':'C07','NameError when base_noun':'C07','missing folder':'C06','debug output even':'C03','min_feature_proportion':'C09','noun table as the minimum':'C09','could not be constructed with a postproc':'C07','Dictionary shared':'C02','filtered the eojeol counter':'C02','is_trained read':'C07','EomiExtractor.predict failed':'C07','kept and edited the dict':'C02','option names they no longer':'C07','turned debug mode on':'C11','failed on unknown parts':'C07','repeated the R part':'C17','same begin for all parts':'C17','empty word and stale':'C17','missing comma':'C07','left its file open':'C05','verbose option to StemExtractor':'C03','dropped min_eojeol_frequency':'C08','exactly at the minimum frequency':'C19','score of a surface':'C09','ignored ignore_one_syllable':'C08','by the length of L':'C22','built empty':'C12','raised KeyError for new pairs':'C13','could not be saved or copied':'C12','compared the frequency with the minimum score':'C09','compounds with frequency and score swapped':'C09','header of the noun prediction':'C09','exactly at min_noun_score':'C19','documents of a term':'C22','unbound variable':'C07','ignored its stopwords':'C08','each distinct bigram':'C22','ignored topk':'C08','ignored the sentences given':'C08','exactly at min_pmi':'C19','next to a consonant':'C16','lengthened runs':'C16','by their R part':'C18','without any known word':'C18','pmi_memory_friendly works':'C07','enforces min_noun_frequency':'C19','order of the tags of a left word':'C10','get their index in corpus order':'C10','lists equal scores in a fixed order':'C10','lemmas of a predicator come in a fixed order':'C10','row and a column for every word':'C23','also ends sentence iteration':'C21','minimum score or proportion':'C19','ending is exactly at min_noun_score':'C19','kept terms below min_df':'C19'}
out=[]
for l in subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s'],text=True).splitlines()[1:]:
    h,s=l.split(' ',1)
    k=[c for m,c in M.items() if m in s]
    assert len(set(k))==1,(l,k)
    out.append('fixed: property=%s %s %s'%(k[0],h,s[5:]))
p='/verif/known-findings.txt'
t=[l for l in open(p,encoding='utf-8').read().splitlines() if not l.startswith('fixed:')]
open(p,'w',encoding='utf-8').write('\n'.join(t+out)+'\n')
