// Picks a share of the cases for the quick tier without following the period of
// the loops that make them (as `m % 4` would).
export const mix = (m: number): number => {
  let x = (m * 2654435 + 40503) % 1000003;
  x = (x * 7919 + Math.floor(x / 1009)) % 1000003;
  return x;
};
