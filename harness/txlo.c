/* the provider's and the engine's code is linked behind this */
void vp_text_lo(void) { }
