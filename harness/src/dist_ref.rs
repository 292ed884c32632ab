// Generated with mpmath (40 digits).
const T_REF: &[(f64, f64, f64)] = &[
    (1e-06, 1.0, 9.9999936338022763263e-1),
    (1e-06, 2.0, 9.9999929289321881363e-1),
    (1e-06, 3.0, 9.9999926489480610444e-1),
    (1e-06, 4.0, 9.9999925000000000016e-1),
    (1e-06, 7.0, 9.9999923001709833561e-1),
    (1e-06, 19.0, 9.9999921254038541493e-1),
    (1e-06, 50.0, 9.9999920609464053791e-1),
    (1e-06, 333.0, 9.9999920271422593241e-1),
    (1e-06, 4999.0, 9.9999920215534040775e-1),
    (0.01, 1.0, 9.9363401447018348957e-1),
    (0.01, 2.0, 9.9292910895820097137e-1),
    (0.01, 3.0, 9.9264911141285198141e-1),
    (0.01, 4.0, 9.925001562458985472e-1),
    (0.01, 7.0, 9.9230031764362177093e-1),
    (0.01, 19.0, 9.9212554200255807876e-1),
    (0.01, 50.0, 9.9206108136714292706e-1),
    (0.01, 333.0, 9.9202727553730987964e-1),
    (0.01, 4999.0, 9.9202168640279001226e-1),
    (0.5, 1.0, 7.0483276469913345165e-1),
    (0.5, 2.0, 6.6666666666666666667e-1),
    (0.5, 3.0, 6.5144796484815099444e-1),
    (0.5, 4.0, 6.4332996318186327424e-1),
    (0.5, 7.0, 6.3240713568928421635e-1),
    (0.5, 19.0, 6.2281649128644171768e-1),
    (0.5, 50.0, 6.1926856751177126202e-1),
    (0.5, 333.0, 6.1740531523460788675e-1),
    (0.5, 4999.0, 6.1709708525545825332e-1),
    (1.0, 1.0, 5.0e-1),
    (1.0, 2.0, 4.2264973081037423549e-1),
    (1.0, 3.0, 3.9100221895577064191e-1),
    (1.0, 4.0, 3.7390096630005888501e-1),
    (1.0, 7.0, 3.5061666282020752657e-1),
    (1.0, 19.0, 3.2987680092112505885e-1),
    (1.0, 50.0, 3.2212564510024450842e-1),
    (1.0, 333.0, 3.1803660087780784238e-1),
    (1.0, 4999.0, 3.1735890926782694508e-1),
    (2.0, 1.0, 2.9516723530086654835e-1),
    (2.0, 2.0, 1.8350341907227396727e-1),
    (2.0, 3.0, 1.3932596855884317685e-1),
    (2.0, 4.0, 1.161165235168155945e-1),
    (2.0, 7.0, 8.561932856297607676e-2),
    (2.0, 19.0, 6.0002036386098366062e-2),
    (2.0, 50.0, 5.0947068737693247512e-2),
    (2.0, 333.0, 4.6312082914232322454e-2),
    (2.0, 4999.0, 4.5554270790697385769e-2),
    (3.7, 1.0, 1.6804452564789518432e-1),
    (3.7, 2.0, 6.5906710194366730847e-2),
    (3.7, 3.0, 3.4277979504254305219e-2),
    (3.7, 4.0, 2.0835429490449908537e-2),
    (3.7, 7.0, 7.6549913712113274432e-3),
    (3.7, 19.0, 1.5197439980985032856e-3),
    (3.7, 50.0, 5.3708985524102013678e-4),
    (3.7, 333.0, 2.5215940888329158593e-4),
    (3.7, 4999.0, 2.1791701838310434754e-4),
    (12.0, 1.0, 5.2929352119179750904e-2),
    (12.0, 2.0, 6.8729336771584601411e-3),
    (12.0, 3.0, 1.245015800789336738e-3),
    (12.0, 4.0, 2.7642854850297295476e-4),
    (12.0, 7.0, 6.3583103781851002706e-6),
    (12.0, 19.0, 2.5908946372221993148e-10),
    (12.0, 50.0, 2.4623806253325446324e-16),
    (12.0, 333.0, 8.1503526935190298254e-28),
    (12.0, 4999.0, 9.9686746524988732892e-33),
    (80.0, 1.0, 7.9573327274489828215e-3),
    (80.0, 2.0, 1.5621338844038619406e-4),
    (80.0, 3.0, 4.3048353796557003004e-6),
    (80.0, 4.0, 1.4633191218531889586e-7),
    (80.0, 7.0, 1.2550709458899235039e-11),
    (80.0, 19.0, 1.716536149812327381e-25),
    (80.0, 50.0, 1.9371605640974540691e-54),
    (80.0, 333.0, 1.7440918836214420932e-219),
];
const F_REF: &[(f64, f64, f64, f64)] = &[
    (0.001, 1.0, 1.0, 9.7987502169635586897e-1),
    (0.001, 1.0, 19.0, 9.7510270847865030508e-1),
    (0.001, 2.0, 14.0, 9.9900057118376090544e-1),
    (0.001, 7.0, 14.0, 9.9999999962331176643e-1),
    (0.001, 3.0, 297.0, 9.9995622762018179921e-1),
    (0.001, 99.0, 297.0, 1.0),
    (0.001, 11.0, 21989.0, 9.9999999999999870806e-1),
    (0.001, 1999.0, 21989.0, 1.0),
    (0.001, 2.0, 2.0, 9.9900099900099900098e-1),
    (0.2, 1.0, 1.0, 7.3227952719876998267e-1),
    (0.2, 1.0, 19.0, 6.5977728354341188022e-1),
    (0.2, 2.0, 14.0, 8.2102958178921119421e-1),
    (0.2, 7.0, 14.0, 9.8016640213656085503e-1),
    (0.2, 3.0, 297.0, 8.9634028041560288808e-1),
    (0.2, 99.0, 297.0, 9.9999999999999997483e-1),
    (0.2, 11.0, 21989.0, 9.976591969202296192e-1),
    (0.2, 1999.0, 21989.0, 1.0),
    (0.2, 2.0, 2.0, 8.3333333333333332562e-1),
    (1.0, 1.0, 1.0, 5.0e-1),
    (1.0, 1.0, 19.0, 3.2987680092112505885e-1),
    (1.0, 2.0, 14.0, 3.9269590377807617188e-1),
    (1.0, 7.0, 14.0, 4.7062475746542972954e-1),
    (1.0, 3.0, 297.0, 3.9317517080565221752e-1),
    (1.0, 99.0, 297.0, 4.8907888531751189867e-1),
    (1.0, 11.0, 21989.0, 4.4330517637655736886e-1),
    (1.0, 1999.0, 21989.0, 4.9633884850443161049e-1),
    (1.0, 2.0, 2.0, 5.0e-1),
    (1.7, 1.0, 1.0, 4.1652159022711412292e-1),
    (1.7, 1.0, 19.0, 2.0786474312346655783e-1),
    (1.7, 2.0, 14.0, 2.1829888212996624038e-1),
    (1.7, 7.0, 14.0, 1.8847143368821932608e-1),
    (1.7, 3.0, 297.0, 1.6708494981827543022e-1),
    (1.7, 99.0, 297.0, 3.5143430219186009257e-4),
    (1.7, 11.0, 21989.0, 6.6775869700544302649e-2),
    (1.7, 1999.0, 21989.0, 2.0394008358519366085e-67),
    (1.7, 2.0, 2.0, 3.7037037037037037646e-1),
    (4.0, 1.0, 1.0, 2.9516723530086654835e-1),
    (4.0, 1.0, 19.0, 6.0002036386098366062e-2),
    (4.0, 2.0, 14.0, 4.2260777616207093374e-2),
    (4.0, 7.0, 14.0, 1.3130653687767119514e-2),
    (4.0, 3.0, 297.0, 8.1623454596938008546e-3),
    (4.0, 99.0, 297.0, 1.8054959122800465444e-20),
    (4.0, 11.0, 21989.0, 7.370067823374086425e-6),
    (4.0, 2.0, 2.0, 2.0e-1),
    (30.0, 1.0, 1.0, 1.1496411795103315303e-1),
    (30.0, 1.0, 19.0, 2.7693552122062659197e-5),
    (30.0, 2.0, 14.0, 8.6750944453169554287e-6),
    (30.0, 7.0, 14.0, 2.1901396758227585148e-7),
    (30.0, 3.0, 297.0, 5.7101736604926062105e-17),
    (30.0, 99.0, 297.0, 8.4829579133263035748e-111),
    (30.0, 11.0, 21989.0, 1.3089703342289764782e-63),
    (30.0, 2.0, 2.0, 3.2258064516129032258e-2),
];
