import p_algebra as A
import p_film as F
import p_integrator as I
import p_sampler as S
import p_light as L
import p_shape as H
import p_kd as K
import p_scene as Z
import p_bxdf as B
import p_bsdf as D
import p_emit as M
import p_warp as W
import p_total as X
import p_share as P
import p_domain as Y
TABLE = {'C33': A.C33, 'C20': A.C20, 'C31': A.C31, 'C32': A.C32, 'C35': A.C35, 'C39': A.C39,
         'C07': F.C07, 'C05': F.C05, 'C06': F.C06, 'C08': F.C08,
         'C01': I.C01, 'C02': I.C02, 'C03': I.C03, 'C04': I.C04, 'C13': I.C13, 'C27': I.C27,
         'C09': S.C09, 'C10': S.C10, 'C11': S.C11, 'C14': S.C14,
         'C12': L.C12, 'C29': L.C29, 'C30': L.C30,
         'C15': K.C15, 'C16': H.C16, 'C17': K.C17, 'C18': H.C18, 'C19': H.C19, 'C28': H.C28,
         'C21': Z.C21, 'C34': Z.C34,
         'C24': B.C24, 'C26': B.C26, 'C40': B.C40,
         'C22': M.C22, 'C23': D.C23, 'C25': D.C25,
         'C38': W.C38, 'C41': W.C41, 'C42': W.C42, 'C37': X.C37, 'C36': P.C36,
         'C43': Y.C43}
