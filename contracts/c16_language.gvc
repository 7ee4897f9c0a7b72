// C16: the stop words of the supported languages (the reference lists)

macro stopEnglish(w) =
  w == "a" || w == "an" || w == "and" || w == "are" || w == "as" || w == "at" ||
  w == "be" || w == "but" || w == "by" || w == "for" || w == "if" || w == "in" ||
  w == "into" || w == "is" || w == "it" || w == "no" || w == "not" || w == "of" ||
  w == "on" || w == "or" || w == "such" || w == "that" || w == "the" || w == "their" ||
  w == "then" || w == "there" || w == "these" || w == "they" || w == "this" || w == "to" ||
  w == "was" || w == "will" || w == "with"

macro stopPortuguese(w) =
  w == "a" || w == "ainda" || w == "alem" || w == "ambas" || w == "ambos" || w == "antes" ||
  w == "ao" || w == "aonde" || w == "aos" || w == "apos" || w == "aquele" || w == "aqueles" ||
  w == "as" || w == "assim" || w == "com" || w == "como" || w == "contra" || w == "contudo" ||
  w == "cuja" || w == "cujas" || w == "cujo" || w == "cujos" || w == "da" || w == "das" ||
  w == "de" || w == "dela" || w == "dele" || w == "deles" || w == "demais" || w == "depois" ||
  w == "desde" || w == "desta" || w == "deste" || w == "dispoe" || w == "dispoem" || w == "diversa" ||
  w == "diversas" || w == "diversos" || w == "do" || w == "dos" || w == "durante" || w == "e" ||
  w == "ela" || w == "elas" || w == "ele" || w == "eles" || w == "em" || w == "entao" ||
  w == "entre" || w == "essa" || w == "essas" || w == "esse" || w == "esses" || w == "esta" ||
  w == "estas" || w == "este" || w == "estes" || w == "ha" || w == "isso" || w == "isto" ||
  w == "logo" || w == "mais" || w == "mas" || w == "mediante" || w == "menos" || w == "mesma" ||
  w == "mesmas" || w == "mesmo" || w == "mesmos" || w == "na" || w == "nas" || w == "nao" ||
  w == "nem" || w == "nesse" || w == "neste" || w == "nos" || w == "o" || w == "os" ||
  w == "ou" || w == "outra" || w == "outras" || w == "outro" || w == "outros" || w == "pelas" ||
  w == "pelo" || w == "pelos" || w == "perante" || w == "pois" || w == "por" || w == "porque" ||
  w == "portanto" || w == "proprio" || w == "propios" || w == "quais" || w == "qual" || w == "qualquer" ||
  w == "quando" || w == "quanto" || w == "que" || w == "quem" || w == "quer" || w == "se" ||
  w == "seja" || w == "sem" || w == "sendo" || w == "seu" || w == "seus" || w == "sob" ||
  w == "sobre" || w == "sua" || w == "suas" || w == "tal" || w == "tambem" || w == "teu" ||
  w == "teus" || w == "toda" || w == "todas" || w == "todo" || w == "todos" || w == "tua" ||
  w == "tuas" || w == "tudo" || w == "um" || w == "uma" || w == "umas" || w == "uns"

func language.init()
  noframe
  ensures [C16] english: forall w string :: {language.StopWordsEnglish[w]} language.StopWordsEnglish[w] <==> stopEnglish(w)
  ensures [C16] portuguese: forall w string :: {language.StopWordsPortuguese[w]} language.StopWordsPortuguese[w] <==> stopPortuguese(w)
