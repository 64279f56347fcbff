CLAIMED = {k: '' for k in ('P01', 'P02', 'P04', 'P05', 'P06', 'P07', 'P08', 'P09', 'P10', 'P11', 'P12', 'P13', 'P14', 'P15', 'P16', 'P17', 'P18', 'P19', 'P20', 'P21')}
NA = {
    'P03': 'Absence of panics is proved where it is within reach (every obligation set of the API functions, of wake_up and of step includes it, under P01, P02, P16), but the property speaks about the whole crate, and the collision kernels of meshes and boxes (index arithmetic, asserts and unwraps on the sides of arbitrary polygons) are not under contract: their absence of panic rests on geometric facts about coplanar convex faces up to rounding, which exact real arithmetic does not decide. So no claim is made for the property as a whole.',
}
