prop('A01', 'Acoustic weightings follow the standard curves, as functions and as filters',
     '''The A, B, C, D and F weighting functions of pydsm.audio_weightings equal the curves of the standards (poles at 20.6, 107.7, 158.5, 737.9 and 12200 Hz for A-C;
     the published D-weighting; Wannamaker's F-weighting) at every frequency, normalised to unit gain at 1 kHz unless normal=False, which only changes a
     constant factor (the exported gain); the power weighting is the square of the amplitude one, elementwise on arrays; the zpk filters are
     real and stable and their amplitude response is proportional to the amplitude weighting.''',
     'inputs', 'every frequency from 1 Hz to 50 kHz (24 kHz for the F-weighting)',
     'Tests never evaluate the weightings against their filters, and a wrong pole is invisible at a few frequencies.',
     ['src/pydsm/audio_weightings.py'],
     [('weighting functions', 'src/pydsm/audio_weightings.py: a_weighting ... f_weighting'), ('filters', 'src/pydsm/audio_weightings.py: a_zpk ... f_zpk')],
     'The frequency is symbolic; rational functions are compared over the whole band by univariate nonlinear queries (degree up to 130), relative tolerance 1e-9 (2e-3 where published digits are rounded).')
prop('A02', 'ISO 226 contours implement the formulas of the standard',
     '''Tables equal those of ISO 226:2003; tabled_L_p(L_N) gives the sound pressure levels of section 4.1 and tabled_L_N(L_p) the loudness levels of section 4.2
     at every tabled frequency, the two being inverse to each other within the rounding of the formulas (0.06 phon) and giving L_p = L_N at 1 kHz; hfe=True appends
     a point at 20 kHz equal to that at 20 Hz; contours exist for loudness levels from 0 to 90 phon and raise ValueError otherwise; the interpolator
     gets exactly the points of the contour, with the requested order.''',
     'inputs', 'every loudness level from 0 to 90 phon; every sound pressure level from the hearing threshold to 120 dB',
     'No test runs ISO 226 code; tables cannot show that the two formulas agree.',
     ['src/pydsm/iso226.py'],
     [('levels', 'src/pydsm/iso226.py: tabled_L_p, tabled_L_N'), ('contours', 'src/pydsm/iso226.py: iso226_spl_contour, iso226_spl_itpl')],
     '10^(L_N/40) or L_p is symbolic; scipy interpolation is a stand-in that records its input.')
