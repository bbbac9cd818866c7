package tilegroup

//verif:bounds 4 points, every 20-bit input, no clipping
//verif:guess 24
func VerifX03_adst4() { oneDim(1, 2, 40) }

//verif:bounds 8 points, every 20-bit input, no clipping
//verif:guess 24
func VerifX03_adst8() { oneDim(1, 3, 40) }

//verif:bounds 16 points, every 20-bit input, no clipping
//verif:guess 24
func VerifX03_adst16() { oneDim(1, 4, 40) }

//verif:bounds 4 points, every 20-bit input
//verif:guess 24
func VerifX03_identity4() { oneDim(2, 2, 40) }

//verif:bounds 8 points, every 20-bit input
//verif:guess 24
func VerifX03_identity8() { oneDim(2, 3, 40) }

//verif:bounds 16 points, every 20-bit input
//verif:guess 24
func VerifX03_identity16() { oneDim(2, 4, 40) }

//verif:bounds 32 points, every 20-bit input
//verif:guess 24
func VerifX03_identity32() { oneDim(2, 5, 40) }

//verif:bounds 8 points, every 16-bit input, clipped to 16 bits
//verif:guess 24
func VerifX03_clip8() { oneDim(1, 3, 16) }

//verif:bounds 16 points, every 16-bit input, clipped to 16 bits
//verif:guess 24
func VerifX03_clip16() { oneDim(1, 4, 16) }
