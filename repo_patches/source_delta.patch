From ad48f694e9fe31b159bcfd46b6eeba1dbe65cf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:26 +0000
Subject: [PATCH 01/61] fix: ReservoirSampling returned an index outside of the
 sample when random() is 1.0

---
 src/reservoir_sampling.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/reservoir_sampling.hpp b/src/reservoir_sampling.hpp
index f7cc7b1..06c6684 100644
--- a/src/reservoir_sampling.hpp
+++ b/src/reservoir_sampling.hpp
@@ -67,6 +67,9 @@ class ReservoirSampling : public Reservoir<element_type, sample_size>{
 			double const rnd = func::random();
 			if(rnd < threshold)
 				idx = func::floor(func::random() * static_cast<double>(sample_size));
+			//The random function may return 1.0, the index still has to be in the sample
+			if(idx >= static_cast<int>(sample_size))
+				idx = sample_size - 1;
 		}
 		counter += 1;
 		return idx;
-- 
2.43.0


From c3c6bb5ca1e5f6ffeecddedd698d5651643d5998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:26 +0000
Subject: [PATCH 02/61] fix: ExponentialReservoirSampling left the sample when
 random() is 1.0

---
 src/reservoir_sampling.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/reservoir_sampling.hpp b/src/reservoir_sampling.hpp
index 06c6684..926cbc3 100644
--- a/src/reservoir_sampling.hpp
+++ b/src/reservoir_sampling.hpp
@@ -116,10 +116,13 @@ class ExponentialReservoirSampling : public Reservoir<element_type, sample_size>
 		double const filling_ratio = static_cast<double>(counter)/static_cast<double>(sample_size);
 		double const remove_element = func::random();
 		int index;
-		if(remove_element < filling_ratio){
+		//NOTE: a full sample always replaces an element, even when random() is 1.0
+		if(counter >= sample_size || remove_element < filling_ratio){
 			double const rdn = func::random();
 			//NOTE: index range from [0, counter[.
 			index = func::floor(rdn * static_cast<double>(counter));
+			if(index >= static_cast<int>(counter))
+				index = counter - 1;
 		}
 		else{
 			index = counter;
-- 
2.43.0


From f5905c433dbb5d193a5166e961c50b5437609769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:26 +0000
Subject: [PATCH 03/61] fix: ChainedReservoirSampling did not sample the slots
 and the elements uniformly

---
 src/chained_reservoir.hpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/chained_reservoir.hpp b/src/chained_reservoir.hpp
index 3a0224b..ef8bd1a 100644
--- a/src/chained_reservoir.hpp
+++ b/src/chained_reservoir.hpp
@@ -29,11 +29,12 @@ class ChainedReservoirSampling{
 	unsigned int counter = 0;
 
 	/**
-	 * Round d to the closest integer
-	 * @param d the double to round
+	 * Return a random index uniformly picked in [0, sample_size[.
 	 */
-	double round(double const d) {
-		  return (double)((int)(d + 0.5));
+	static unsigned int random_index(void) {
+		unsigned int const index = static_cast<unsigned int>(funct::random() * sample_size);
+		//The random function may return 1.0
+		return index < sample_size ? index : sample_size - 1;
 	}
 	/**
 	 * Function to reset a chain when it is replaced. This is a recursive function.
@@ -124,24 +125,25 @@ class ChainedReservoirSampling{
 			sample[counter].element = e;
 			sample[counter].timestamp = timestamp;
 			sample[counter].next = NULL;
-			next[counter] = counter + 1 + round(funct::random() * (sample_size-1));
+			next[counter] = counter + 1 + random_index();
 		}
 		else{
-			double const threshold = (double)sample_size / (double)counter;
+			//We use counter+1 because the current item is not counted in counter yet
+			double const threshold = (double)sample_size / ((double)counter + 1);
 			double const rnd = funct::random();
 			if(rnd < threshold){
-				int const index = round(funct::random() * (sample_size-1));
+				int const index = random_index();
 				sample[index].element = e;
 				sample[index].timestamp = timestamp;
 				clear_chain(sample[index].next); //NOTE we do not free the memory here, but it might be interesting to think about it
-				next[index] = counter + 1 + round(funct::random() * (sample_size-1));
+				next[index] = counter + 1 + random_index();
 			}
 		}
 		//check `next`
 		for(int i = 0; i < sample_size; ++i){
 			if(counter == next[i]){
 				push_on_chain(sample[i], e, timestamp);
-				next[i] = counter + 1 + round(funct::random() * (sample_size-1));
+				next[i] = counter + 1 + random_index();
 			}
 		}
 		counter += 1;
-- 
2.43.0


From 4c8758c85055b3674db4f6e6f8d81fb99cf4c864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:26 +0000
Subject: [PATCH 04/61] fix: ChainedReservoirSampling::shift_chain overwrote
 the nodes of the chain instead of walking it

---
 src/chained_reservoir.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/chained_reservoir.hpp b/src/chained_reservoir.hpp
index ef8bd1a..4abbbff 100644
--- a/src/chained_reservoir.hpp
+++ b/src/chained_reservoir.hpp
@@ -85,22 +85,22 @@ class ChainedReservoirSampling{
 	 * @param current the node that should replace head.
 	 */
 	void shift_chain(node& head, node& current){//TODO improve this to avoid overwriting elements
-		node& receiver = head;
-		node& mover = current;
+		node* receiver = &head;
+		node* mover = &current;
 		while(1){//TODO add security
-			receiver.element = mover.element;
-			receiver.timestamp = mover.timestamp;
-			if(mover.next != NULL){
-				mover = *mover.next;
-				receiver = *receiver.next;
+			receiver->element = mover->element;
+			receiver->timestamp = mover->timestamp;
+			if(mover->next != NULL){
+				mover = mover->next;
+				receiver = receiver->next;
 			}
 			else
 				break;
 		}
 		//Once everything is shifted, disable all following cells
-		while(receiver.next != NULL){
-			receiver = *receiver.next;
-			receiver.timestamp = 0;
+		while(receiver->next != NULL){
+			receiver = receiver->next;
+			receiver->timestamp = 0;
 		}
 	}
 	public:
-- 
2.43.0


From ee62b8a06a988bcab67844d3da53270b26660d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:26 +0000
Subject: [PATCH 05/61] fix: ChainedReservoirSampling::obsolete kept the
 elements of the given timestamp

---
 src/chained_reservoir.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chained_reservoir.hpp b/src/chained_reservoir.hpp
index 4abbbff..c6a159d 100644
--- a/src/chained_reservoir.hpp
+++ b/src/chained_reservoir.hpp
@@ -172,7 +172,7 @@ class ChainedReservoirSampling{
 			node* current = &head;
 			bool do_shift = true;
 
-			while(current->timestamp < timestamp){
+			while(current->timestamp <= timestamp){
 				if(current->next == NULL){
 					do_shift = false;
 					break;
-- 
2.43.0


From c68b446b0d33504537473fe4bfb4a912767b1379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:47 +0000
Subject: [PATCH 06/61] fix: LTC rounded the limits at every point, so the
 error was not bounded by epsilon

---
 src/ltc.hpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/ltc.hpp b/src/ltc.hpp
index 8022fe4..d83a005 100644
--- a/src/ltc.hpp
+++ b/src/ltc.hpp
@@ -16,7 +16,15 @@ class LTC{
 		timestamp_type timestamp;
 		element_type value;
 	};
-	data_point last_transmit_point, UL, LL, new_ul, new_ll, to_transmit;
+	/*
+	 * Internal structure to describe a limit. The limits are not rounded to element_type, otherwise they drift away from the data points.
+	 */
+	struct limit_point{
+		timestamp_type timestamp;
+		double value;
+	};
+	data_point last_transmit_point, to_transmit;
+	limit_point UL, LL, new_ul, new_ll;
 
 	int counter = 0; //Counter make sure the algorithm does not fail for the first 3 values
 
@@ -52,9 +60,9 @@ class LTC{
 	 */
 	void update(timestamp_type const timestamp, element_type const value){
 		new_ul.timestamp = timestamp;
-		new_ul.value = min(value + epsilon, max_value);
+		new_ul.value = min<double>(value + epsilon, max_value);
 		new_ll.timestamp = timestamp;
-		new_ll.value = max(value - epsilon, min_value);
+		new_ll.value = max<double>(value - epsilon, min_value);
 	}
 	/*
 	 * Compute the need to transmit the compress data point.
@@ -69,11 +77,11 @@ class LTC{
 			return true;
 
 		if(old_up_deriva < new_up_deriva) {
-			new_ul.value = (new_ul.timestamp - UL.timestamp) / time_unit_difference * old_up_deriva + UL.value;
+			new_ul.value = (new_ul.timestamp - UL.timestamp) * time_unit_difference * old_up_deriva + UL.value;
 		}
 
 		if(old_low_deriva > new_low_deriva) {
-			new_ll.value = (new_ll.timestamp - LL.timestamp) / time_unit_difference * old_low_deriva + LL.value;
+			new_ll.value = (new_ll.timestamp - LL.timestamp) * time_unit_difference * old_low_deriva + LL.value;
 		}
 		return false;
 	}
-- 
2.43.0


From a32e9cb46a7e0082ef659b63e74d18df02cc5103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:47 +0000
Subject: [PATCH 07/61] fix: LTC ended a segment at timestamp-1 instead of at
 the last point of the segment

---
 src/ltc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ltc.hpp b/src/ltc.hpp
index d83a005..7345488 100644
--- a/src/ltc.hpp
+++ b/src/ltc.hpp
@@ -128,7 +128,7 @@ class LTC{
 			to_transmit = last_transmit_point;
 			//Update the last_transmit_point
 			element_type tmp_param = (UL.value + LL.value) / 2;
-			last_transmit_point.timestamp = timestamp - 1;
+			last_transmit_point.timestamp = UL.timestamp;
 			last_transmit_point.value = tmp_param;
 			counter = 1;
 			add(timestamp, value);
-- 
2.43.0


From b21a27bdec1da5d872e071abde083120b9482dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:10 +0000
Subject: [PATCH 08/61] fix: MCNN::count_clusters did not follow the clusters
 replaced by a split or cleaned

---
 src/mc_nn.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mc_nn.hpp b/src/mc_nn.hpp
index beec111..43b05e1 100644
--- a/src/mc_nn.hpp
+++ b/src/mc_nn.hpp
@@ -187,8 +187,10 @@ class MCNN{
 
 		clusters[new_idx].initialize(cluster_minus, clusters[cluster_idx].label, old_time, error_thr);
 		clusters[cluster_idx].initialize(cluster_plus, clusters[cluster_idx].label, old_time, error_thr);
+		//NOTE: *new_idx* is already active when it replaces the least performant cluster
+		if(!active[new_idx])
+			count_active_cluster += 1;
 		active[new_idx] = true;
-		count_active_cluster += 1;
 	}
 	/**
 	 * Compute the squared distance between two data point.
@@ -281,8 +283,10 @@ class MCNN{
 	 */
 	void clean_low_performance_clusters(void){
 		for(int i = 0; i < max_cluster; ++i)
-			if(active[i] == true && clusters[i].data_count > 1 && clusters[i].performance(timestamp) < performance_thr)
+			if(active[i] == true && clusters[i].data_count > 1 && clusters[i].performance(timestamp) < performance_thr){
 				active[i] = false;
+				count_active_cluster -= 1;
+			}
 	}
 	public:
 	/**
-- 
2.43.0


From d1a516a4eb03506dd849c75b0c67910adbf956ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:10 +0000
Subject: [PATCH 09/61] fix: MCNN ignored the clusters further than a squared
 distance of 1000000

---
 src/mc_nn.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mc_nn.hpp b/src/mc_nn.hpp
index 43b05e1..35bd905 100644
--- a/src/mc_nn.hpp
+++ b/src/mc_nn.hpp
@@ -231,7 +231,7 @@ class MCNN{
 			//NOTE: finding both the nearest and the nearest with class could be done in one pass, but I choose to use 2 different functions to make it clearer.
 			clusters[cluster_idx].centroid(centroid);
 			double const distance = euclidean_distance(features, centroid);
-			if(distance < shortest_distance){
+			if(nearest_cluster < 0 || distance < shortest_distance){
 				nearest_cluster = cluster_idx;
 				shortest_distance = distance;
 			}
@@ -261,7 +261,7 @@ class MCNN{
 			clusters[cluster_idx].centroid(centroid);
 			//Compute the squared euclidean distance
 			double const distance = euclidean_distance(features, centroid);
-			if(distance < shortest_distance){
+			if(nearest_cluster < 0 || distance < shortest_distance){
 				nearest_cluster = cluster_idx;
 				shortest_distance = distance;
 			}
-- 
2.43.0


From 0c3bd91c544e1be8202377a4e6df877afb4d84fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:10 +0000
Subject: [PATCH 10/61] fix: HoeffdingTree gave the same counters to every leaf

---
 src/hoeffding_tree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hoeffding_tree.hpp b/src/hoeffding_tree.hpp
index e6ac27d..296a54e 100644
--- a/src/hoeffding_tree.hpp
+++ b/src/hoeffding_tree.hpp
@@ -50,6 +50,7 @@ class HoeffdingTree{
 			int const total_size_counters = compute_total_size_counters(tree->sum_feature_size);
 			int const tmp_preset = tree->buffer_preset - total_size_counters;
 			this->split_feature = - ((max_size - tmp_preset) / total_size_counters); //we need negative number because counters are store on the other side of buffer
+			tree->buffer_preset = tmp_preset;
 			reset_counters();
 			double const infinity = std::numeric_limits<float>::infinity();
 			for(int i = 0; i < feature_count; ++i){
-- 
2.43.0


From 3acab7983133820a70bf1138870f6023f135522f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:10 +0000
Subject: [PATCH 11/61] fix: HoeffdingTree used nodes it could not allocate
 when its buffer was full

---
 src/hoeffding_tree.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hoeffding_tree.hpp b/src/hoeffding_tree.hpp
index 296a54e..7003265 100644
--- a/src/hoeffding_tree.hpp
+++ b/src/hoeffding_tree.hpp
@@ -327,7 +327,7 @@ class HoeffdingTree{
 		 * @param size The size to allocate (a must have for any new operator overload).
 		 * @param tree An additional parameter that indicates the tree of the node.
 		 */
-		void* operator new(size_t const size, HoeffdingTree& tree){
+		void* operator new(size_t const size, HoeffdingTree& tree) noexcept {
 			int const tmp_offset = tree.buffer_offset + size;
 			int const tmp_preset = tree.buffer_preset - compute_total_size_counters(tree.sum_feature_size);
 			if(tmp_offset > tmp_preset)
@@ -503,12 +503,14 @@ class HoeffdingTree{
 		int const result = leaf->train(features, label, split_value);
 		if(result >= 0){
 			int const split_result = leaf->split(result, split_value);
+			if(split_result != 0) //There is no more space, *leaf* is still a leaf
+				return false;
 			//NOTE: it is very unlikely the node will split, so we don't check
 			if(features[result] <= split_value)
 				leaf->get_left_child()->train(features, label, split_value);
 			else
 				leaf->get_right_child()->train(features, label, split_value);
-			return (split_result == 0);
+			return true;
 		}
 		return true;
 	}
-- 
2.43.0


From 518d0a7beefde5e48b6852db318c4ac0199d9d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:10 +0000
Subject: [PATCH 12/61] fix: HoeffdingTree never updated the box of its root,
 so the limits of its children were NaN

---
 src/hoeffding_tree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hoeffding_tree.hpp b/src/hoeffding_tree.hpp
index 7003265..a21712f 100644
--- a/src/hoeffding_tree.hpp
+++ b/src/hoeffding_tree.hpp
@@ -54,8 +54,8 @@ class HoeffdingTree{
 			reset_counters();
 			double const infinity = std::numeric_limits<float>::infinity();
 			for(int i = 0; i < feature_count; ++i){
-				l_box[i] = -infinity;
-				u_box[i] =  infinity;
+				l_box[i] =  infinity;
+				u_box[i] = -infinity;
 			}
 			int* count;
 			double* limits;
-- 
2.43.0


From f8127730abfda51a4f0d89aa2d0e8f27191d6d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:10 +0000
Subject: [PATCH 13/61] fix: HoeffdingTree split on a feature that did not
 correspond to the best limit

---
 src/hoeffding_tree.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hoeffding_tree.hpp b/src/hoeffding_tree.hpp
index a21712f..1080b40 100644
--- a/src/hoeffding_tree.hpp
+++ b/src/hoeffding_tree.hpp
@@ -233,11 +233,12 @@ class HoeffdingTree{
 			if(square_diff > epsilon && info_gain[best_split[0]] > 0){
 				split_value = limits[best_split[0]];
 				//Try to retrieve the feature concerned :>
-				int tmp_c = tree->features_size[0];
+				//NOTE: there is one limit less than there is bins
+				int tmp_c = tree->features_size[0] - 1;
 				for(int f = 0; f < feature_count-1; ++f){
 					if(best_split[0] < tmp_c)
 						return f;
-					tmp_c += tree->features_size[f+1];
+					tmp_c += tree->features_size[f+1] - 1;
 				}
 				//If the feature is not found, it must be the last one
 				return feature_count-1;
-- 
2.43.0


From 094043a671dece0f460c9734937e9cf4db7175b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:32 +0000
Subject: [PATCH 14/61] fix: HoeffdingTree compared the best split with
 uninitialized memory when there is only one limit

---
 src/hoeffding_tree.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hoeffding_tree.hpp b/src/hoeffding_tree.hpp
index 1080b40..1f74d95 100644
--- a/src/hoeffding_tree.hpp
+++ b/src/hoeffding_tree.hpp
@@ -198,7 +198,10 @@ class HoeffdingTree{
 				tmp_feature_sum += tree->features_size[f];
 			}
 			//Now we need to update *info_sum*
-			double info_gain[tree->sum_feature_size-feature_count];			
+			//NOTE: two values are compared below, even when there is only one limit. The missing one is a split that gains nothing
+			int const limit_count = tree->sum_feature_size-feature_count;
+			double info_gain[limit_count < 2 ? 2 : limit_count];
+			info_gain[0] = info_gain[1] = 0;
 			//NOTE: no need to initialize output because it will be set.
 			compute_information_gain(static_cast<double>(*count), counters, info_gain);
 			double const d_count = static_cast<double>(*count);
-- 
2.43.0


From 7a59d856d9c0ccd064b1c099b11fd96732559410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:32 +0000
Subject: [PATCH 15/61] fix: CuckooFilter was filled with 0 instead of
 empty_value

---
 src/cuckoo_filter.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cuckoo_filter.hpp b/src/cuckoo_filter.hpp
index fc6f279..aac608e 100644
--- a/src/cuckoo_filter.hpp
+++ b/src/cuckoo_filter.hpp
@@ -148,6 +148,7 @@ class CuckooFilter{
 	 * Basic constructor.
 	 */
 	CuckooFilter(){
+		clear();
 	}
 	/**
 	 * Add a new element to the filter.
@@ -240,7 +241,8 @@ class CuckooFilter{
 	 * Empty the filter.
 	 */
 	void clear(void){
-		for(unsigned char& byte : filter)
-			byte = 0;
+		for(int i = 0; i < bucket_count; ++i)
+			for(int j = 0; j < bucket_size; ++j)
+				set_entry(i, j, empty_value);
 	}
 };
-- 
2.43.0


From 3dfb8b4e780d38bdefa7803add2f75490e509bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:32 +0000
Subject: [PATCH 16/61] fix: CuckooFilter never relocated the last entry of a
 bucket

---
 src/cuckoo_filter.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cuckoo_filter.hpp b/src/cuckoo_filter.hpp
index aac608e..6e789f8 100644
--- a/src/cuckoo_filter.hpp
+++ b/src/cuckoo_filter.hpp
@@ -192,7 +192,9 @@ class CuckooFilter{
 			else{
 				double a = random_function();
 				auto h = a > 0.5 ? h1 : h2;
-				auto space_h = static_cast<unsigned int>(floor(random_function() * (bucket_size-1)));
+				auto space_h = static_cast<unsigned int>(floor(random_function() * bucket_size));
+				if(space_h >= bucket_size) //The random function may return 1.0
+					space_h = bucket_size - 1;
 				fingerprint_t tmp = get_entry(h, space_h);
 				set_entry(h, space_h, fp);
 				fp = tmp;
-- 
2.43.0


From 2435ede7739493d9e20d1152968e3843f19a5afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 17/61] fix: Utils::shuffle could not leave an element in place

---
 src/utils.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils.hpp b/src/utils.hpp
index f86478a..f3c9d44 100644
--- a/src/utils.hpp
+++ b/src/utils.hpp
@@ -83,7 +83,9 @@ class Utils{
 	inline static void shuffle(T* array, int const size){
 		for(int i = size-1; i > 0; --i){
 			T tmp = array[i];
-			int swap_idx = static_cast<int>(func::rand_uniform()*static_cast<double>(i));
+			int swap_idx = static_cast<int>(func::rand_uniform()*static_cast<double>(i+1));
+			if(swap_idx > i) //The random function may return 1.0
+				swap_idx = i;
 			array[i] = array[swap_idx];
 			array[swap_idx] = tmp;
 		}
-- 
2.43.0


From d0d0ee507e93783ff8bcc7e1ebdc60b551699c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 18/61] fix: MultiLayerPerceptron::backpropagate read
 layer_size[-1]

---
 src/perceptron.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/perceptron.hpp b/src/perceptron.hpp
index 1b20ed4..f1de074 100644
--- a/src/perceptron.hpp
+++ b/src/perceptron.hpp
@@ -151,8 +151,6 @@ class MultiLayerPerceptron{
 		 */
 		double backpropagate(double const* expected){
 			int output_base = get_output_base(layer_count-1);
-			int weight_base = get_weight_base(layer_count-1);
-
 			double sum_error_output = 0;
 			//Set the error of the last layer
 			for(int i = 0; i < layer_size[layer_count-1]; ++i){
@@ -165,7 +163,7 @@ class MultiLayerPerceptron{
 
 			for(int layer_idx = layer_count - 2; layer_idx >= 0; --layer_idx){
 				output_base -= layer_size[layer_idx];
-				weight_base -= (layer_size[layer_idx-1]+1) * layer_size[layer_idx];
+				int const weight_base = get_weight_base(layer_idx+1);
 				for(int neuron_idx = 0; neuron_idx <= layer_size[layer_idx]; ++neuron_idx){
 					double neuron_error = 0;
 					double current_neuron_output = 1;
@@ -174,7 +172,7 @@ class MultiLayerPerceptron{
 					for(int weight_idx = 0; weight_idx < layer_size[layer_idx+1]; ++weight_idx){
 
 						int neuron_next_layer = output_base + layer_size[layer_idx] + weight_idx;
-						int weight_next_layer = weight_base + (layer_size[layer_idx-1]+1) * layer_size[layer_idx] + weight_idx * (layer_size[layer_idx]+1) + neuron_idx;
+						int weight_next_layer = weight_base + weight_idx * (layer_size[layer_idx]+1) + neuron_idx;
 						neuron_error += neuron_output[neuron_next_layer] * weights[weight_next_layer];
 					}
 					neuron_error *= func::derivative(current_neuron_output);
@@ -183,7 +181,7 @@ class MultiLayerPerceptron{
 					for(int weight_idx = 0; weight_idx < layer_size[layer_idx+1]; ++weight_idx){
 
 						int neuron_next_layer = output_base + layer_size[layer_idx] + weight_idx;
-						int weight_next_layer = weight_base + (layer_size[layer_idx-1]+1) * layer_size[layer_idx] + weight_idx * (layer_size[layer_idx]+1) + neuron_idx;
+						int weight_next_layer = weight_base + weight_idx * (layer_size[layer_idx]+1) + neuron_idx;
 						double d_weight = - learning_rate * current_neuron_output * neuron_output[neuron_next_layer];
 						weights[weight_next_layer] += d_weight;
 					}
-- 
2.43.0


From 3d3e2a951b9e2bf1da63e7412f5597af73af683e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 19/61] fix: Utils::pick_from_distribution could return an
 index with no probability or outside of the array

---
 src/utils.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/utils.hpp b/src/utils.hpp
index f3c9d44..a531f07 100644
--- a/src/utils.hpp
+++ b/src/utils.hpp
@@ -14,10 +14,14 @@ class Utils{
 		double const u = func::rand_uniform(); //Sample a random number between [0,1[
 		//NOTE improve with a log search :]
 		for(int i = 0; i < size; ++i){
-			if(u <= probabilities[i])
+			if(u < probabilities[i])
 				return i;
 		}
-		return size;//NOTE: this should never happen unless the last element of *probabilities* is less than 1
+		//NOTE: this should never happen unless the last element of *probabilities* is less than 1 (because of rounding errors) or u is 1.0
+		int last = size - 1;
+		while(last > 0 && probabilities[last] <= probabilities[last-1]) //Skip the indexes that cannot be picked
+			last -= 1;
+		return last;
 	}
 	/**
 	 * Turn an array of values into a sum of probabilities according to these values.
-- 
2.43.0


From 34890a4f9923c32dc0a24cb463b774ed00f09268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 20/61] fix: MondrianForest::train returned an uninitialized
 value

---
 src/mondrian.hpp         | 2 +-
 src/mondrian_unbound.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index 0801153..b4ac7c3 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -447,7 +447,7 @@ class MondrianForest{
 	 * @param label The label of the data point.
 	 */
 	bool train(feature_type const* features, int const label){
-		bool fully_trained;
+		bool fully_trained = true;
 		for(int i = 0; i < tree_count; ++i){
 			bool has_trained = train_tree(features, label, i);
 			if(!has_trained)
diff --git a/src/mondrian_unbound.hpp b/src/mondrian_unbound.hpp
index c00bc5b..c50507d 100644
--- a/src/mondrian_unbound.hpp
+++ b/src/mondrian_unbound.hpp
@@ -458,7 +458,7 @@ class MondrianForestUnbound{
 	 * @param label The label of the data point.
 	 */
 	bool train(feature_type const* features, int const label){
-		bool fully_trained;
+		bool fully_trained = true;
 		for(int i = 0; i < tree_count; ++i){
 			bool has_trained = train_tree(features, label, i);
 			if(!has_trained)
-- 
2.43.0


From aaf42cb2e223799afc66ecc77c9cc1c4e6ee46c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 21/61] fix: MondrianForest::predict did not set the scores

---
 src/mondrian.hpp         | 4 ++++
 src/mondrian_unbound.hpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index b4ac7c3..2af07c0 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -485,6 +485,10 @@ class MondrianForest{
 			if(sum_posterior_mean[i] > sum_posterior_mean[best])
 				best = i;
 		}
+		if(scores != nullptr){
+			for(int k = 0; k < label_count; ++k)
+				scores[k] = sum_posterior_mean[k];
+		}
 		return best;
 	}
 };
diff --git a/src/mondrian_unbound.hpp b/src/mondrian_unbound.hpp
index c50507d..ad06379 100644
--- a/src/mondrian_unbound.hpp
+++ b/src/mondrian_unbound.hpp
@@ -494,6 +494,10 @@ class MondrianForestUnbound{
 			if(sum_posterior_mean[i] > sum_posterior_mean[best])
 				best = i;
 		}
+		if(scores != nullptr){
+			for(int k = 0; k < label_count; ++k)
+				scores[k] = sum_posterior_mean[k];
+		}
 		return best;
 	}
 	~MondrianForestUnbound(){
-- 
2.43.0


From 3d7df02e329bcfe05d4cb1377400a16fea464fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 22/61] fix: MondrianForest used the node -1 when there was no
 space for a root

---
 src/mondrian.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index 2af07c0..9e99a31 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -281,6 +281,8 @@ class MondrianForest{
 		if (root_id == EMPTY_NODE){ //The root of the tree does not exist yet
 			//Pick a new node
 			root_id = available_node();
+			if(root_id < 0) //There is no more space for this tree
+				return false;
 
 			//Initialize this node as the root for this tree
 			roots[tree_id] = root_id;
-- 
2.43.0


From ae8f633dbb85561e24b1c51a33d52a7e15e72e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 23/61] fix: MondrianForest lost a node when there was no space
 for a sibling

---
 src/mondrian.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index 9e99a31..8ec2dea 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -216,6 +216,9 @@ class MondrianForest{
 					sample_block(new_sibling, features, label);
 				}
 				else{
+					//Release the parent since there is no space for the sibling
+					nodes[new_parent].split_dimension = EMPTY_NODE;
+					nodes[new_parent].tau = EMPTY_NODE;
 					update_box = true;
 				}
 			}
-- 
2.43.0


From 622f1f5eedc388f0ce5fe1f056701c9b0d77fc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:35 +0000
Subject: [PATCH 24/61] fix: MondrianForest::predict computed every branching
 probability from the root

---
 src/mondrian.hpp         | 1 +
 src/mondrian_unbound.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index 8ec2dea..7c14434 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -390,6 +390,7 @@ class MondrianForest{
 				break;
 			}
 			probability_not_separated_yet *= (1 - probability_of_branching);
+			parent_tau = current_node.tau;
 
 			//Otherwise, the child is picked based on the split of the node
 			if(features[current_node.split_dimension] <= current_node.split_value)
diff --git a/src/mondrian_unbound.hpp b/src/mondrian_unbound.hpp
index ad06379..6dd39d3 100644
--- a/src/mondrian_unbound.hpp
+++ b/src/mondrian_unbound.hpp
@@ -428,6 +428,7 @@ class MondrianForestUnbound{
 			}
 			InternalNode* inode = dynamic_cast<InternalNode*>(current_node);
 			probability_not_separated_yet *= (1 - probability_of_branching);
+			parent_tau = current_node->tau;
 
 			//Otherwise, the child is picked based on the split of the node
 			if(inode->point_go_left(features))
-- 
2.43.0


From 79b620e974592a1b198a9bd54f75096b5924517d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:20 +0000
Subject: [PATCH 25/61] fix: MCNN split a cluster of negative integers with an
 unsigned division

---
 src/mc_nn.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mc_nn.hpp b/src/mc_nn.hpp
index 35bd905..d24e31c 100644
--- a/src/mc_nn.hpp
+++ b/src/mc_nn.hpp
@@ -175,7 +175,8 @@ class MCNN{
 		//Create two separate feature data points based on the centroid of the original cluster
 		feature_type cluster_minus[feature_count], cluster_plus[feature_count];
 		for(int i = 0; i < feature_count; ++i){
-			cluster_minus[i] = cluster_plus[i] = clusters[cluster_idx].features_sum[i] / clusters[cluster_idx].data_count;
+			//NOTE: data_count is unsigned, the division would make a negative integer sum unsigned too
+			cluster_minus[i] = cluster_plus[i] = (double)clusters[cluster_idx].features_sum[i] / (double)clusters[cluster_idx].data_count;
 		}
 
 		//Update the spliting attribut
-- 
2.43.0


From d9202f894b6bf5e170b9d47a11951e679adb156f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:14 +0000
Subject: [PATCH 26/61] fix: MCNN created NaN clusters when the variance of the
 split cluster was rounded below zero

---
 src/mc_nn.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mc_nn.hpp b/src/mc_nn.hpp
index d24e31c..59b4e7b 100644
--- a/src/mc_nn.hpp
+++ b/src/mc_nn.hpp
@@ -36,7 +36,8 @@ class MCNN{
 			double const a = (double)features_square_sum[features_idx] / (double)data_count; //CF2X
 			double const b = (double)features_sum[features_idx] / (double)data_count; //CF1X
 			double const ret=a - b*b;
-			return ret;
+			//NOTE: the rounding may make it negative, and its square root NaN, when all the data points are the same
+			return ret > 0 ? ret : 0;
 		}
 		/**
 		 * Incorporate a data point into the micro-cluster.
-- 
2.43.0


From 3282be77feccd9aa7b799c69cd68d238860ff255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:21 +0000
Subject: [PATCH 27/61] Verification hook: visit the nodes of a HoeffdingTree
 (guarded by ORPAILLECC_VERIF)

---
 src/hoeffding_tree.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/hoeffding_tree.hpp b/src/hoeffding_tree.hpp
index 1f74d95..1d1f7bd 100644
--- a/src/hoeffding_tree.hpp
+++ b/src/hoeffding_tree.hpp
@@ -544,6 +544,19 @@ class HoeffdingTree{
 	Node* get_root(void){
 		return reinterpret_cast<Node*>(buffer);
 	}
+#ifdef ORPAILLECC_VERIF
+	/**
+	 * Verification only: visit the nodes in preorder, left child first, with visitor(is_leaf, split_feature, split_value).
+	 */
+	template<class visitor_type>
+	void verif_visit(visitor_type& visitor, int const index = 0) const{
+		Node const* node = reinterpret_cast<Node const*>(buffer) + index;
+		visitor(node->is_leaf(), node->split_feature, node->split_value);
+		if(!node->is_leaf())
+			for(int i = 0; i < 2; ++i)
+				verif_visit(visitor, node->children[i]);
+	}
+#endif
 	private:
 	/**
 	 * Retrieve the leaf corresponding to the data point.
-- 
2.43.0


From fc46a8cb59e6e1f6b786d6bf36c2c6087d9935ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:42 +0000
Subject: [PATCH 28/61] Verification hook: visit the trees of the Mondrian
 forests (guarded by ORPAILLECC_VERIF)

---
 src/mondrian.hpp         | 41 ++++++++++++++++++++++++++++++++++++++++
 src/mondrian_unbound.hpp | 37 ++++++++++++++++++++++++++++++++++++
 2 files changed, 78 insertions(+)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index 7c14434..b86480e 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -497,4 +497,45 @@ class MondrianForest{
 		}
 		return best;
 	}
+#ifdef ORPAILLECC_VERIF
+	/**
+	 * Verification only: visit the trees. For each tree, either visitor.no_root() or its nodes in preorder, left child first, with
+	 * visitor.open(id, parent, is_leaf, split_dimension, split_value, tau, bound_lower, bound_upper, counters) and visitor.close() after its children.
+	 */
+	template<class visitor_type>
+	void verif_visit(visitor_type& visitor) const{
+		for(int i = 0; i < tree_count; ++i){
+			if(roots[i] == EMPTY_NODE)
+				visitor.no_root();
+			else
+				verif_visit_node(visitor, roots[i]);
+		}
+	}
+	template<class visitor_type>
+	void verif_visit_node(visitor_type& visitor, int const id) const{
+		if(id < 0 || id >= MAX_NODE){
+			visitor.bad_node();
+			return;
+		}
+		Node const& node = nodes[id];
+		visitor.open(id, node.parent, node.is_leaf(), node.split_dimension, node.split_value, node.tau, node.bound_lower, node.bound_upper, node.counters);
+		if(!node.is_leaf()){
+			verif_visit_node(visitor, node.child_left);
+			verif_visit_node(visitor, node.child_right);
+		}
+		visitor.close();
+	}
+	/**
+	 * Verification only: the number of nodes of the pool and how many of them are available.
+	 */
+	int verif_capacity(void) const{
+		return MAX_NODE;
+	}
+	int verif_available(void) const{
+		int count = 0;
+		for(int i = 0; i < MAX_NODE; ++i)
+			count += nodes[i].available() ? 1 : 0;
+		return count;
+	}
+#endif
 };
diff --git a/src/mondrian_unbound.hpp b/src/mondrian_unbound.hpp
index 6dd39d3..dc82a9b 100644
--- a/src/mondrian_unbound.hpp
+++ b/src/mondrian_unbound.hpp
@@ -506,5 +506,42 @@ class MondrianForestUnbound{
 			if(root != nullptr)
 				delete root;
 	}
+#ifdef ORPAILLECC_VERIF
+	/**
+	 * Verification only: visit the trees. For each tree, either visitor.no_root() or its nodes in preorder, left child first, with
+	 * visitor.open(id, parent, is_leaf, split_dimension, split_value, tau, bound_lower, bound_upper, counters) and visitor.close() after its children.
+	 */
+	template<class visitor_type>
+	void verif_visit(visitor_type& visitor) const{
+		for(MondrianNode* root : roots){
+			if(root == nullptr)
+				visitor.no_root();
+			else
+				verif_visit_node(visitor, root);
+		}
+	}
+	template<class visitor_type>
+	void verif_visit_node(visitor_type& visitor, MondrianNode const* node) const{
+		if(node == nullptr){
+			visitor.bad_node();
+			return;
+		}
+		double lower[feature_count], upper[feature_count];
+		long long int counters[label_count];
+		for(int i = 0; i < feature_count; ++i){
+			lower[i] = node->get_lower_bound(i);
+			upper[i] = node->get_upper_bound(i);
+		}
+		for(int i = 0; i < label_count; ++i)
+			counters[i] = node->get_counters(i);
+		InternalNode const* inode = dynamic_cast<InternalNode const*>(node);
+		visitor.open(node, node->parent, node->is_leaf(), inode != nullptr ? inode->get_split_dimension() : EMPTY_NODE, inode != nullptr ? inode->get_split_value() : 0.0, node->tau, lower, upper, counters);
+		if(!node->is_leaf()){
+			verif_visit_node(visitor, node->child_left);
+			verif_visit_node(visitor, node->child_right);
+		}
+		visitor.close();
+	}
+#endif
 };
 
-- 
2.43.0


From 69d59999b224defd1c560a12390e5d7191080920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:16 +0000
Subject: [PATCH 29/61] fix: copying a MondrianForest left the parents of its
 nodes uninitialized

---
 src/mondrian.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index b86480e..6affd1a 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -53,6 +53,7 @@ class MondrianForest{
 			split_value = src.split_value;
 			child_left = src.child_left;
 			child_right = src.child_right;
+			parent = src.parent;
 			tau = src.tau;
 			for(int i = 0; i < label_count; ++i)
 				counters[i] = src.counters[i];
-- 
2.43.0


From e8f745b804ddf079b2f368fc62a7757b6e97314b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:35 +0000
Subject: [PATCH 30/61] fix: the split of a Mondrian forest could be rounded up
 to the upper bound and separate nothing

---
 src/mondrian.hpp         | 4 +++-
 src/mondrian_unbound.hpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mondrian.hpp b/src/mondrian.hpp
index 6affd1a..4f207d5 100644
--- a/src/mondrian.hpp
+++ b/src/mondrian.hpp
@@ -161,7 +161,9 @@ class MondrianForest{
 			}
 
 			//sample the split between [lower_value, upper_value]
-			double const split_value = func::rand_uniform()*(upper_value - lower_value) + lower_value;
+			double split_value = func::rand_uniform()*(upper_value - lower_value) + lower_value;
+			if(split_value >= upper_value) //The sum may be rounded up, but the split has to separate the two bounds
+				split_value = lower_value;
 			int new_parent, new_sibling;
 			//insert new node above the current one
 			new_parent = available_node();
diff --git a/src/mondrian_unbound.hpp b/src/mondrian_unbound.hpp
index dc82a9b..72d7aed 100644
--- a/src/mondrian_unbound.hpp
+++ b/src/mondrian_unbound.hpp
@@ -261,7 +261,9 @@ class MondrianForestUnbound{
 			}
 
 			//sample the split between [lower_value, upper_value]
-			double const split_value = func::rand_uniform()*(upper_value - lower_value) + lower_value;
+			double split_value = func::rand_uniform()*(upper_value - lower_value) + lower_value;
+			if(split_value >= upper_value) //The sum may be rounded up, but the split has to separate the two bounds
+				split_value = lower_value;
 			InternalNode* new_parent = new InternalNode();
 			LeafNode* new_sibling = new LeafNode();
 			count_internal_nodes += 1;
-- 
2.43.0


From a1e01ad1ef91293f5956714177a3f1c328927293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:20 +0000
Subject: [PATCH 31/61] fix: CoarseMondrianForest::predict did not set the
 scores

---
 src/mondrian_coarse.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index d99ef14..c2f36bf 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -3286,6 +3286,10 @@ int predict(feature_type const* features, double* scores = nullptr, int tree_to_
 	//Then we divide by the number trees.
 	for(int k = 0; k < label_count; ++k)
 		sum_posterior_mean[k] /= tree_used;
+	if(scores != nullptr){
+		for(int k = 0; k < label_count; ++k)
+			scores[k] = sum_posterior_mean[k];
+	}
 
 	//Finally, we look for the best label
 	return Utils::index_max(sum_posterior_mean, label_count);
-- 
2.43.0


From 759ae161b84b1887517c7f91770790d25b2d8b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:20 +0000
Subject: [PATCH 32/61] fix: CoarseMondrianForest::predict computed every
 branching probability from the root

---
 src/mondrian_coarse.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index c2f36bf..c9db993 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -2161,6 +2161,7 @@ void predict_tree(feature_type const* features, int const tree_id, double* poste
 			break;
 		}
 		probability_not_separated_yet *= (1 - probability_of_branching);
+		parent_tau = current_node.tau;
 
 		//Otherwise, the child is picked based on the split of the node
 		if(features[current_node.split_dimension] <= current_node.split_value)
-- 
2.43.0


From 81b43902ea5cd27b7a2e96133d2e013bac65aa88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:20 +0000
Subject: [PATCH 33/61] fix: CoarseMondrianForest with EXTEND_NONE never grew
 its trees

---
 src/mondrian_coarse.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index c9db993..a1c9f0e 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -2055,10 +2055,10 @@ bool train_tree(feature_type const* features, int const label, int const tree_id
 		else if(fe_split_trigger == SPLIT_TRIGGER_SFE)
 			summy = count_fe_down(base.root, features);
 
-		if(extend_type == EXTEND_ORIGINAL)
-			extend_block0(root_id, tree_id, features, label);
-		else if(extend_type == EXTEND_NONE && node_available <= 2)
+		if(extend_type == EXTEND_NONE && node_available <= 2)
 			ret = false;
+		else if(extend_type == EXTEND_ORIGINAL || extend_type == EXTEND_NONE)
+			extend_block0(root_id, tree_id, features, label);
 		else if(extend_type == EXTEND_PARTIAL_UPDATE)
 			extend_block2(root_id, tree_id, features, label);
 		else if(extend_type == EXTEND_GHOST)
-- 
2.43.0


From 477fdd992029343a64836e6e6b65057c03cf09b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:20 +0000
Subject: [PATCH 34/61] fix: CoarseMondrianForest with EXTEND_COUNTER_NO_UPDATE
 counted a data point twice when it introduced a new leaf

---
 src/mondrian_coarse.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index a1c9f0e..e719f6b 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -778,6 +778,7 @@ void extend_block3(int const node_id, int const tree_id, feature_type const* fea
 		}
 
 		sample_block(new_sibling, features, label);
+		return; //The data point is in the new sibling
 	}
 	else if(E < 0 || parent_tau + E > node.tau){ //Otherwise, just update the box
 		//update lower bound and upper bound of this node
-- 
2.43.0


From 7ba1b2248cd69263c509b230fba7d19cfe022b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:20 +0000
Subject: [PATCH 35/61] fix: the split of a CoarseMondrianForest could be
 rounded up to the upper bound and separate nothing

---
 src/mondrian_coarse.hpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index e719f6b..a29f69a 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -347,7 +347,9 @@ void extend_block0(int const node_id, int const tree_id, feature_type const* fea
 		}
 
 		//sample the split between [lower_value, upper_value]
-		double const split_value = func::rand_uniform()*(upper_value - lower_value) + lower_value;
+		double split_value = func::rand_uniform()*(upper_value - lower_value) + lower_value;
+		if(split_value >= upper_value) //The sum may be rounded up, but the split has to separate the two bounds
+			split_value = lower_value;
 		int new_parent, new_sibling;
 		//insert new node above the current one
 		new_parent = available_node();
@@ -472,7 +474,9 @@ void extend_block2(int const node_id, int const tree_id, feature_type const* fea
 		}
 
 		//sample the split between [lower_value, upper_value]
-		double const split_value = func::rand_uniform()*(upper_value - lower_value) + lower_value;
+		double split_value = func::rand_uniform()*(upper_value - lower_value) + lower_value;
+		if(split_value >= upper_value) //The sum may be rounded up, but the split has to separate the two bounds
+			split_value = lower_value;
 		int new_parent, new_sibling;
 		//insert new node above the current one
 		new_parent = available_node();
@@ -597,7 +601,9 @@ void extend_block1(int const node_id, int const tree_id, feature_type const* fea
 		}
 
 		//sample the split between [lower_value, upper_value]
-		double const split_value = func::rand_uniform()*(upper_value - lower_value) + lower_value;
+		double split_value = func::rand_uniform()*(upper_value - lower_value) + lower_value;
+		if(split_value >= upper_value) //The sum may be rounded up, but the split has to separate the two bounds
+			split_value = lower_value;
 		int new_parent, new_sibling;
 		//insert new node above the current one
 		new_parent = available_node();
@@ -726,7 +732,9 @@ void extend_block3(int const node_id, int const tree_id, feature_type const* fea
 		}
 
 		//sample the split between [lower_value, upper_value]
-		double const split_value = func::rand_uniform()*(upper_value - lower_value) + lower_value;
+		double split_value = func::rand_uniform()*(upper_value - lower_value) + lower_value;
+		if(split_value >= upper_value) //The sum may be rounded up, but the split has to separate the two bounds
+			split_value = lower_value;
 		int new_parent, new_sibling;
 		//insert new node above the current one
 		new_parent = available_node();
@@ -919,7 +927,9 @@ void extend_node(int const node_id, int const tree_id, feature_type const* featu
 		}
 
 		//sample the split between [lower_value, upper_value]
-		double const split_value = func::rand_uniform()*(upper_value - lower_value) + lower_value;
+		double split_value = func::rand_uniform()*(upper_value - lower_value) + lower_value;
+		if(split_value >= upper_value) //The sum may be rounded up, but the split has to separate the two bounds
+			split_value = lower_value;
 		//insert new node above the current one
 		new_parent_id = available_node();
 		nodes()[new_parent_id].split_dimension = dimension;
-- 
2.43.0


From 4acdadda57f57c811b6e96560a9f8ee66c97bad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:20 +0000
Subject: [PATCH 36/61] fix: CoarseMondrianForest limited the size of its trees
 with an uninitialized size that was never updated

---
 src/mondrian_coarse.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index a29f69a..0ab403a 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -210,6 +210,7 @@ struct TreeBase{
 	}
 	void reset(int const node_limit=1){
 		root = EMPTY_ROOT;
+		size = 0;
 		node_count_limit = node_limit;
 		statistics.reset();
 		sum_contribution = 0;
@@ -2955,6 +2956,14 @@ bool train(feature_type const* features, int const label){
 	}
 	if(node_available <= 1)
 		has_been_full += 1;
+	//The size of the trees is only needed when it pauses them
+	if(tree_management == ROBUR_MANAGEMENT || tree_management == PAUSING_PHOENIX_MANAGEMENT){
+		for(int i = 0; i < tree_count; ++i){
+			int tree_nodes = 0;
+			int const depth = tree_depth(i, &tree_nodes);
+			base[i].size = size_type == DEPTH_SIZE ? depth : tree_nodes;
+		}
+	}
 
 	//otter(features, label);
     #ifdef DEBUG
-- 
2.43.0


From aaa72e7a0df429eccf022ed9bd78b656b161fff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:53 +0000
Subject: [PATCH 37/61] fix: CoarseMondrianForest::node_depth wrote outside of
 its stack when a tree is deeper than 100 nodes

---
 src/mondrian_coarse.hpp | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 0ab403a..a049ad8 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -2281,11 +2281,8 @@ int tree_depth(int const tree_id, int* tree_node_count) const{
 }
 template<int max_stack_size=100>
 int node_depth(int const start_id, int* tree_node_count) const{
-	//Initialize an array to keep track of where we have to go at each tree level.
-	//The max depth expected is MAX_DEPTH.
-	int stack[max_stack_size];
-	for(int i = 0; i < max_stack_size; ++i)
-		stack[i] = -1;
+	//The node visited before the current one, to know where we have to go without a stack: the depth has no limit.
+	int previous_id = nodes()[start_id].parent;
 
 	int node_id = start_id;
 	int depth = 0, max_depth = 0;
@@ -2296,6 +2293,8 @@ int node_depth(int const start_id, int* tree_node_count) const{
 	int depth_id = start_id;
 	while(i < node_count && depth >= 0){
 		Node const& node = nodes()[node_id];
+		int const came_from = previous_id;
+		previous_id = node_id;
 		if (node.is_leaf()){
 			i += 1;
 			//acknowledge the depth
@@ -2308,27 +2307,19 @@ int node_depth(int const start_id, int* tree_node_count) const{
 			depth -= 1;
 		}
 		else{ //Internal Node
-			if (stack[depth] == -1){ //going right
-				stack[depth] = 0;
+			if (came_from == node.parent){ //going right
 				depth += 1;
 				node_id = node.child_right;
 			}
-			else if (stack[depth] == 0){ //Go left
-				stack[depth] = 1;
+			else if (came_from == node.child_right){ //Go left
 				depth += 1;
 				node_id = node.child_left;
 			}
-			else if (stack[depth] == 1){ //Go up
+			else{ //Go up
 				i += 1;
-				stack[depth] = -1; //Reset to -1
 				depth -= 1;
 				node_id = node.parent;
 			}
-			#ifdef DEBUG
-			else{
-				cout << __FILE__ << ":" << __LINE__ << " CoarseMondrianForest::node_depth: stack[" << depth << "] == " << stack[depth] << " (should be -1, 0, or 1)" << endl;
-			}
-			#endif
 		}
 	}
 	if(tree_node_count != nullptr)
-- 
2.43.0


From 7a958a7fe8c1f4cee4efd485a74c5ac12e66e918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:53 +0000
Subject: [PATCH 38/61] fix: CoarseMondrianForest with UNBOUND_OPTIMIZE did not
 update the counters of the node 0

---
 src/mondrian_coarse.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index a049ad8..0843d2e 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -2209,8 +2209,10 @@ int get_leaf(int const tree_id, feature_type const* features) const{
 void update_posterior_count(int const tree_id, feature_type const* features, int const label){
 	int node_id = get_leaf(tree_id, features);
 	int const leaf_id = node_id;
+	if(leaf_id == Node::EMPTY_NODE) //The tree is empty
+		return;
 	node_id = nodes()[node_id].parent;
-	while(node_id > 0 && node_id < node_count){
+	while(node_id >= 0 && node_id < node_count){
 		Node& node = nodes()[node_id];
 		int const c_left = Utils::min(1, nodes()[node.child_left].counters[label]);
 		int const c_right = Utils::min(1, nodes()[node.child_right].counters[label]);
-- 
2.43.0


From 6def2a6f5e4dd816e2a0736d6880439e8c47260c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:53 +0000
Subject: [PATCH 39/61] fix: CoarseMondrianForest did not initialize the sum of
 the features used for the average point

---
 src/mondrian_coarse.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 0843d2e..5fa0888 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -2893,6 +2893,8 @@ CoarseMondrianForest(double const lifetime, double const base_measure, double co
 			tree_bases()[i].reset(node_count);
 	for(int i = 0; i < node_count; ++i)
 		nodes()[i].reset();
+	for(int i = 0; i < feature_count; ++i)
+		sum_features[i] = 0;
 #ifdef DEBUG
 	cout << "Tree Count = " << this->tree_count << endl;
 	cout << "Node Count = " << this->node_count << endl;
-- 
2.43.0


From 605cc1cb06cca97682fe444ffaccb332d8b9850c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:53 +0000
Subject: [PATCH 40/61] Verification hook: visit the trees of the
 CoarseMondrianForest (guarded by ORPAILLECC_VERIF)

---
 src/mondrian_coarse.hpp | 46 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 5fa0888..d1af91d 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -3311,6 +3311,52 @@ int predict(feature_type const* features, double* scores = nullptr, int tree_to_
 	return Utils::index_max(sum_posterior_mean, label_count);
 }
 
+#ifdef ORPAILLECC_VERIF
+/**
+ * Verification only: visit the trees. For each tree, either visitor.no_root() or its nodes in preorder, left child first, with
+ * visitor.open(id, parent, is_leaf, split_dimension, split_value, tau, bound_lower, bound_upper, counters), visitor.scores(fading_score, forced_extend)
+ * and visitor.close() after its children.
+ */
+template<class visitor_type>
+void verif_visit(visitor_type& visitor) const{
+	for(int i = 0; i < tree_count; ++i){
+		if(tree_bases()[i].is_empty())
+			visitor.no_root();
+		else
+			verif_visit_node(visitor, tree_bases()[i].root);
+	}
+}
+template<class visitor_type>
+void verif_visit_node(visitor_type& visitor, int const id) const{
+	if(id < 0 || id >= node_count){
+		visitor.bad_node();
+		return;
+	}
+	Node const& node = nodes()[id];
+	visitor.open(id, node.parent, node.is_leaf(), node.split_dimension, node.split_value, node.tau, node.bound_lower, node.bound_upper, node.counters);
+	visitor.scores(node.fading_score, node.forced_extend);
+	if(!node.is_leaf()){
+		verif_visit_node(visitor, node.child_left);
+		verif_visit_node(visitor, node.child_right);
+	}
+	visitor.close();
+}
+/**
+ * Verification only: the number of nodes of the pool, how many of them no tree uses and how many of them the forest believes to be available.
+ */
+int verif_capacity(void) const{
+	return node_count;
+}
+int verif_available(void) const{
+	int count = 0;
+	for(int i = 0; i < node_count; ++i)
+		count += nodes()[i].available() ? 1 : 0;
+	return count;
+}
+int verif_believed(void) const{
+	return node_available;
+}
+#endif
 Node* get_nodes(){
 	return nodes();
 }
-- 
2.43.0


From d4dbf56dfcf17a662db38d76a09edd6f8e1218f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:30 +0000
Subject: [PATCH 41/61] fix: CoarseMondrianForest only compiled with double
 features

---
 src/mondrian_coarse.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index d1af91d..583873c 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -1022,8 +1022,8 @@ void split_node(int const node_id, int const tree_id, feature_type const* featur
 	//Set the box for the new children and the new_parent and the node (depending on the values in features
 	//The current datapoint is passed through after readjusting counters and shape
 	for(int i = 0; i < feature_count; ++i){
-		new_parent.bound_lower[i] = Utils::min(node.bound_lower[i], features[i]);
-		new_parent.bound_upper[i] = Utils::max(node.bound_upper[i], features[i]);
+		new_parent.bound_lower[i] = Utils::min<double>(node.bound_lower[i], features[i]);
+		new_parent.bound_upper[i] = Utils::max<double>(node.bound_upper[i], features[i]);
 		new_sibling.bound_lower[i] = node.bound_lower[i];
 		new_sibling.bound_upper[i] = node.bound_upper[i];
 	}
@@ -1139,8 +1139,8 @@ bool split_barycenter(int const node_id, int const tree_id, feature_type const*
 	int const dimension = Utils::pick_from_distribution<func>(probabilities, feature_count);
 
 	//Select the bound to choose the split from
-	double lower_value = Utils::min(barycenter[dimension], features[dimension]);
-	double upper_value = Utils::max(barycenter[dimension], features[dimension]);
+	double lower_value = Utils::min<double>(barycenter[dimension], features[dimension]);
+	double upper_value = Utils::max<double>(barycenter[dimension], features[dimension]);
 
 	//sample the split between [lower_value, upper_value]
 	double const random_value = func::rand_uniform();
@@ -1160,8 +1160,8 @@ bool split_barycenter(int const node_id, int const tree_id, feature_type const*
 	//Set the box for the new children and the new_parent and the node (depending on the values in features
 	//The current datapoint is passed through after readjusting counters and shape
 	for(int i = 0; i < feature_count; ++i){
-		new_parent.bound_lower[i] = Utils::min(node.bound_lower[i], features[i]);
-		new_parent.bound_upper[i] = Utils::max(node.bound_upper[i], features[i]);
+		new_parent.bound_lower[i] = Utils::min<double>(node.bound_lower[i], features[i]);
+		new_parent.bound_upper[i] = Utils::max<double>(node.bound_upper[i], features[i]);
 		new_sibling.bound_lower[i] = node.bound_lower[i];
 		new_sibling.bound_upper[i] = node.bound_upper[i];
 	}
@@ -1523,8 +1523,8 @@ int pass_data_point_down(int const start_id, feature_type const* features, int c
 		Node& node = nodes()[node_id];
 		//Update box size
 		for(int i = 0; i < feature_count; ++i){
-			double const lower = Utils::min(node.bound_lower[i], features[i]);
-			double const upper = Utils::max(node.bound_upper[i], features[i]);
+			double const lower = Utils::min<double>(node.bound_lower[i], features[i]);
+			double const upper = Utils::max<double>(node.bound_upper[i], features[i]);
 			node.bound_lower[i] = lower;
 			node.bound_upper[i] = upper;
 		}
-- 
2.43.0


From f2d44aa268e1be4c2aaf5e61c927c2a172568ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 42/61] fix: CoarseMondrianForest with EXTEND_GHOST or
 EXTEND_PARTIAL_UPDATE dropped a point whose split time was exactly the one of
 the node

---
 src/mondrian_coarse.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 583873c..5cfabc2 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -530,7 +530,7 @@ void extend_block2(int const node_id, int const tree_id, feature_type const* fea
 
 		sample_block(new_sibling, features, label);
 	}
-	else if(E < 0 || parent_tau + E > node.tau){ //Otherwise, just update the box
+	else if(E < 0 || parent_tau + E >= node.tau){ //Otherwise, just update the box
 		//update lower bound and upper bound of this node
 		for(int i = 0; i < feature_count; ++i){
 			if(node.bound_lower[i] > features[i])
@@ -658,7 +658,7 @@ void extend_block1(int const node_id, int const tree_id, feature_type const* fea
 		sample_block(new_sibling, features, label);
 	}
 	//else{ //Otherwise, just update the box
-	else if(E < 0 || parent_tau + E > node.tau){ //Otherwise, just update the box
+	else if(E < 0 || parent_tau + E >= node.tau){ //Otherwise, just update the box
 		//update lower bound and upper bound of this node
 		for(int i = 0; i < feature_count; ++i){
 			if(node.bound_lower[i] > features[i])
@@ -789,7 +789,7 @@ void extend_block3(int const node_id, int const tree_id, feature_type const* fea
 		sample_block(new_sibling, features, label);
 		return; //The data point is in the new sibling
 	}
-	else if(E < 0 || parent_tau + E > node.tau){ //Otherwise, just update the box
+	else if(E < 0 || parent_tau + E >= node.tau){ //Otherwise, just update the box
 		//update lower bound and upper bound of this node
 		for(int i = 0; i < feature_count; ++i){
 			if(node.bound_lower[i] > features[i])
-- 
2.43.0


From a9ab0c675dd678bbe267da88312ffa75a00fdd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 43/61] fix: CoarseMondrianForest with UNBOUND_OPTIMIZE kept
 counting the labels of a trimmed leaf

---
 src/mondrian_coarse.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 5cfabc2..fcf71ec 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -1761,8 +1761,13 @@ void tree_trim(){
 		return;
 	for(int i = 0; i < tree_count; ++i){
 		int id = tree_trim(i);
-		if(tree_bases()[i].root != id && id >= 0 && id < node_count) //Can't cut the root
+		if(tree_bases()[i].root != id && id >= 0 && id < node_count){ //Can't cut the root
 			cut_block(id, i);
+			#ifdef UNBOUND_OPTIMIZE
+			if(extend_type != EXTEND_GHOST)
+				update_posterior_count(tree_bases()[i].root); //The leaf does not count anymore
+			#endif
+		}
 	}
 }
 template<int max_stack_size=100>
-- 
2.43.0


From 6bfe7027dd9aa56846412def7e7890bb88b9ef44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:00 +0000
Subject: [PATCH 44/61] fix: CoarseMondrianForest split leaves beyond the limit
 of the tree

---
 src/mondrian_coarse.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index fcf71ec..dea1c8e 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -896,7 +896,7 @@ void extend_block4(int const node_id, int const tree_id, feature_type const* fea
 			bool has_split_bary = false;
 			//PAUSE
 			//if(!((total_count >= 20 && total_count <= 150)) && E < 0 && node_available >= 2){//Data point in the box
-			if(has_been_full > 20 && E < 0 && node_available >= 2){//Data point in the box
+			if(has_been_full > 20 && E < 0 && node_available >= 2 && !pause_expension){//Data point in the box
 					has_split_bary = split_barycenter(node_id, tree_id, features, label, parent_id, parent_tau);
 			}
 			if(!has_split_bary){
-- 
2.43.0


From 91f6a88d9ac25e7ffdd3953e46bf18da9f833562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:00 +0000
Subject: [PATCH 45/61] fix: CoarseMondrianForest::count_sides counted the
 boxes beside the split on the wrong side

---
 src/mondrian_coarse.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index dea1c8e..4d8ae0f 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -1301,9 +1301,9 @@ int count_sides(int const start_id, int const split_dimension, double const spli
 				count_left += left;
 				count_right += right;
 			}
-			else if(split_value <= lower)
-				count_left += count;
 			else if(split_value >= upper)
+				count_left += count;
+			else if(split_value <= lower)
 				count_right += count;
 
 			if(node_id == start_id)
-- 
2.43.0


From 54ceef0ae7901bc9374d708f5aba63c00dfa3352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:00 +0000
Subject: [PATCH 46/61] fix: CoarseMondrianForest predicted NaN in a leaf
 without points

---
 src/mondrian_coarse.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 4d8ae0f..b940605 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -2161,7 +2161,8 @@ void predict_tree(feature_type const* features, int const tree_id, double* poste
 
 			for(int l = 0; l < label_count; ++l){
 				//posterior_means of the parent of current_node
-				double const posterior_mean = (1/c_sum) * (c[l] - new_node_discount * c[l] + c_sum * posterior_means[l]);
+				//Without any point (a leaf split may leave a side empty), it is the one of the parent
+				double const posterior_mean = c_sum > 0 ? (1/c_sum) * (c[l] - new_node_discount * c[l] + c_sum * posterior_means[l]) : posterior_means[l];
 				//Note that *posterior_mean* is the value for the hypothetical parent
 				smoothed_posterior_means[l] += probability_not_separated_yet * probability_of_branching * posterior_mean;
 			}
-- 
2.43.0


From eaba0f60f8a84fb13d59848403f5d67d14051aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:00 +0000
Subject: [PATCH 47/61] fix: CoarseMondrianForest with EXTEND_BARYCENTER
 truncated the distance between a point of integers and a box

---
 src/mondrian_coarse.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index b940605..180e272 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -816,13 +816,13 @@ void extend_block3(int const node_id, int const tree_id, feature_type const* fea
 //Count forced extend
 void extend_block4(int const node_id, int const tree_id, feature_type const* features, int const label, int const forced_extend_sum=0){
 	//e_lower and e_upper are used to compute probabilities
-	feature_type e_lower[feature_count], e_upper[feature_count];
+	double e_lower[feature_count], e_upper[feature_count];
 	double probabilities[feature_count];
 	Node& node = nodes()[node_id];
 	int const parent_id = node.parent;
 	double const parent_tau = node.parent >= 0 ? nodes()[node.parent].tau : 0; //The tau value of the parent of the root is 0
 	//sum is used as a parameter to pick random numbers following exponential law
-	feature_type sum = 0;
+	double sum = 0;
 	//compute e_lower, e_upper and sum
 	for(int i = 0; i < feature_count; ++i){
 		e_lower[i] = node.bound_lower[i] - features[i] > 0 ? node.bound_lower[i] - features[i] : 0;
-- 
2.43.0


From 7559568f500c59081ccb273fdcd8226ca93148b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:20 +0000
Subject: [PATCH 48/61] fix: ChainedReservoirSampling aborted when a chain had
 more than 5000 elements

---
 src/chained_reservoir.hpp | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/chained_reservoir.hpp b/src/chained_reservoir.hpp
index c6a159d..d1bde5f 100644
--- a/src/chained_reservoir.hpp
+++ b/src/chained_reservoir.hpp
@@ -37,15 +37,13 @@ class ChainedReservoirSampling{
 		return index < sample_size ? index : sample_size - 1;
 	}
 	/**
-	 * Function to reset a chain when it is replaced. This is a recursive function.
+	 * Function to reset a chain when it is replaced.
 	 * @param start The node to start from.
 	 */
 	void clear_chain(node* start){
-		if(start == NULL)
-			return;
-		start->timestamp = 0;
-		//TODO improve this recursive code lazy boy -_-"
-		clear_chain(start->next);
+		//NOTE: not recursive because there is no bound on the length of a chain
+		for(; start != NULL; start = start->next)
+			start->timestamp = 0;
 	}
 	/** Add a new element in the first available space of a chain.
 	 * If there is no space (and no loop) it run the malloc function given in `funct` to allocate a new space.
@@ -55,9 +53,8 @@ class ChainedReservoirSampling{
 	 */
 	void push_on_chain(node& head, element_type e, unsigned int const timestamp){
 		node* current = &head;
-		int i = 0;
 		//The only thing that could make this loop forever is a corruption the linked list of node that loop over the same data without empty space.
-		while(i < 5000){ //`i` is just a security
+		while(true){
 			if(current->timestamp == 0){ // This cell is available
 				current->element = e;
 				current->timestamp = timestamp;
@@ -74,10 +71,7 @@ class ChainedReservoirSampling{
 			}
 
 			current = current->next;
-			i += 1;
 		}
-		assert(false);
-		//TODO maybe clear the chain if it is corrupted
 	}
 	/*
 	 * Shift the node from current to head.
-- 
2.43.0


From 01ab1982431549df176f46fce711d2eb45a16880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:21 +0000
Subject: [PATCH 49/61] fix: LTC overflowed when the time between two points
 times time_unit_difference was beyond the timestamp type

---
 src/ltc.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ltc.hpp b/src/ltc.hpp
index 7345488..3afadac 100644
--- a/src/ltc.hpp
+++ b/src/ltc.hpp
@@ -77,11 +77,11 @@ class LTC{
 			return true;
 
 		if(old_up_deriva < new_up_deriva) {
-			new_ul.value = (new_ul.timestamp - UL.timestamp) * time_unit_difference * old_up_deriva + UL.value;
+			new_ul.value = static_cast<double>(new_ul.timestamp - UL.timestamp) * time_unit_difference * old_up_deriva + UL.value;
 		}
 
 		if(old_low_deriva > new_low_deriva) {
-			new_ll.value = (new_ll.timestamp - LL.timestamp) * time_unit_difference * old_low_deriva + LL.value;
+			new_ll.value = static_cast<double>(new_ll.timestamp - LL.timestamp) * time_unit_difference * old_low_deriva + LL.value;
 		}
 		return false;
 	}
-- 
2.43.0


From 4759c35b363d041cdbb188e826da48810f55771a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:21 +0000
Subject: [PATCH 50/61] fix: LTC overflowed when the margin around a value was
 beyond the element type

---
 src/ltc.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ltc.hpp b/src/ltc.hpp
index 3afadac..d07c450 100644
--- a/src/ltc.hpp
+++ b/src/ltc.hpp
@@ -60,9 +60,9 @@ class LTC{
 	 */
 	void update(timestamp_type const timestamp, element_type const value){
 		new_ul.timestamp = timestamp;
-		new_ul.value = min<double>(value + epsilon, max_value);
+		new_ul.value = min<double>(static_cast<double>(value) + epsilon, max_value);
 		new_ll.timestamp = timestamp;
-		new_ll.value = max<double>(value - epsilon, min_value);
+		new_ll.value = max<double>(static_cast<double>(value) - epsilon, min_value);
 	}
 	/*
 	 * Compute the need to transmit the compress data point.
-- 
2.43.0


From 59011d806cdb2e466657fb65adc75cebaf1a1c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:27 +0000
Subject: [PATCH 51/61] fix: CoarseMondrianForest::tree_trim left trees deeper
 than 100 nodes untrimmed

---
 src/mondrian_coarse.hpp | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 180e272..5af17b9 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -1775,15 +1775,11 @@ int tree_trim(int const tree_id){
 	TreeBase const& base = tree_bases()[tree_id];
 	int const root_id = base.root;
 
-	//Initialize an array to keep track of where we have to go at each tree level.
-	//The max depth expected is MAX_DEPTH.
-	int stack[max_stack_size];
-	for(int i = 0; i < max_stack_size; ++i)
-		stack[i] = -1;
+	//The node visited before the current one, to know where we have to go without a stack: the depth has no limit.
+	int previous_id = Node::EMPTY_NODE;
 
 	//Start at the root, then dive inside the tree
 	int node_id = root_id;
-	int depth = 0;
 	double smallest_count = -1;
 	int smallest_id = 0;
 	//a for loop instead of a while to avoid infinite loops. Since we don't expect to do more turn than node_count
@@ -1792,27 +1788,21 @@ int tree_trim(int const tree_id){
 	double sum_count_leaves = 0;
 	while(i < node_count && node_id >= 0){
 		Node& node = nodes()[node_id];
+		int const came_from = previous_id;
+		previous_id = node_id;
 		if(!node.is_leaf()){  //Internal node
-			if (stack[depth] == -1){ //Go right
-				stack[depth] = 0;
-				depth += 1;
+			if (came_from == node.parent){ //Go right
 				node_id = node.child_right;
 			}
-			else if (stack[depth] == 0){ //Go left
-				stack[depth] = 1;
-				depth += 1;
+			else if (came_from == node.child_right){ //Go left
 				node_id = node.child_left;
 			}
-			else if (stack[depth] == 1){ //Go up
-				stack[depth] = -1; //Reset to -1
-				depth -= 1;
+			else{ //Go up
 				i += 1;
 				node_id = node.parent;
 			}
 		}
 		else{ //Leaf
-			stack[depth] = -1; //Reset to -1
-			depth -= 1;
 			i += 1;
 			leaf_count += 1;
 			if(trim_type == TRIM_COUNT){//Trim based on count
@@ -1840,10 +1830,8 @@ int tree_trim(int const tree_id){
 			}
 			node_id = node.parent;
 		}
-		if(depth >= max_stack_size)
-			return -1;
 	}
-	if(depth != -1)
+	if(leaf_count == 0) //There is no tree
 		return -2;
 	if(sum_count_leaves > 0 && (smallest_count/sum_count_leaves) > maximum_trim_size)
 		return -3;
-- 
2.43.0


From 6b39e1fb42a4f972ae59a322ebd63b0de52dccf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:27 +0000
Subject: [PATCH 52/61] fix: CoarseMondrianForest did not fade the leaves of
 trees deeper than 100 nodes

---
 src/mondrian_coarse.hpp | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 5af17b9..67644d9 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -1846,15 +1846,11 @@ int tree_fade_counts(int const tree_id){
 	TreeBase const& base = tree_bases()[tree_id];
 	int const root_id = base.root;
 
-	//Initialize an array to keep track of where we have to go at each tree level.
-	//The max depth expected is MAX_DEPTH.
-	int stack[max_stack_size];
-	for(int i = 0; i < max_stack_size; ++i)
-		stack[i] = -1;
+	//The node visited before the current one, to know where we have to go without a stack: the depth has no limit.
+	int previous_id = Node::EMPTY_NODE;
 
 	//Start at the root, then dive inside the tree
 	int node_id = root_id;
-	int depth = 0;
 	double smallest_count = -1;
 	int smallest_id = 0;
 	//a for loop instead of a while to avoid infinite loops. Since we don't expect to do more turn than node_count
@@ -1863,33 +1859,25 @@ int tree_fade_counts(int const tree_id){
 	double sum_count_leaves = 0;
 	while(i < node_count && node_id >= 0){
 		Node& node = nodes()[node_id];
+		int const came_from = previous_id;
+		previous_id = node_id;
 		if(!node.is_leaf()){  //Internal node
-			if (stack[depth] == -1){ //Go right
-				stack[depth] = 0;
-				depth += 1;
+			if (came_from == node.parent){ //Go right
 				node_id = node.child_right;
 			}
-			else if (stack[depth] == 0){ //Go left
-				stack[depth] = 1;
-				depth += 1;
+			else if (came_from == node.child_right){ //Go left
 				node_id = node.child_left;
 			}
-			else if (stack[depth] == 1){ //Go up
-				stack[depth] = -1; //Reset to -1
-				depth -= 1;
+			else{ //Go up
 				i += 1;
 				node_id = node.parent;
 			}
 		}
 		else{ //Leaf
-			stack[depth] = -1; //Reset to -1
-			depth -= 1;
 			i += 1;
 			node.fading_score = node.fading_score * nodes_fading_f;
 			node_id = node.parent;
 		}
-		if(depth >= max_stack_size)
-			return -1;
 	}
 	return 0;
 }
-- 
2.43.0


From 8ef3a7be7d25598f0ae5cdd6ca854dacf9785d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:27 +0000
Subject: [PATCH 53/61] fix: CoarseMondrianForest::find_barycenter did not
 divide the sum in trees deeper than 100 nodes

---
 src/mondrian_coarse.hpp | 28 +++++++---------------------
 1 file changed, 7 insertions(+), 21 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 67644d9..137c5ed 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -1689,14 +1689,10 @@ int count_data_point_tree(int const tree_id){
 }
 template<int max_stack_size=100>
 int find_barycenter(int const start_id, double* avg_features){
-	//Initialize an array to keep track of where we have to go at each tree level.
-	//The max depth expected is MAX_DEPTH.
-	int stack[max_stack_size];
-	for(int i = 0; i < max_stack_size; ++i)
-		stack[i] = -1;
+	//The node visited before the current one, to know where we have to go without a stack: the depth has no limit.
+	int previous_id = nodes()[start_id].parent;
 
 	int node_id = start_id;
-	int depth = 0;
 	double count[feature_count];
 	for(int i = 0; i < feature_count; ++i){
 		count[i] = 0;
@@ -1707,20 +1703,16 @@ int find_barycenter(int const start_id, double* avg_features){
 	int i = 0;
 	while(i < node_count && node_id >= 0){
 		Node& node = nodes()[node_id];
+		int const came_from = previous_id;
+		previous_id = node_id;
 		if(!node.is_leaf()){  //Internal node
-			if (stack[depth] == -1){ //Go right
-				stack[depth] = 0;
-				depth += 1;
+			if (came_from == node.parent){ //Go right
 				node_id = node.child_right;
 			}
-			else if (stack[depth] == 0){ //Go left
-				stack[depth] = 1;
-				depth += 1;
+			else if (came_from == node.child_right){ //Go left
 				node_id = node.child_left;
 			}
-			else if (stack[depth] == 1){ //Go up
-				stack[depth] = -1; //Reset to -1
-				depth -= 1;
+			else{ //Go up
 				i += 1;
 				if(node_id == start_id)
 					break;
@@ -1728,8 +1720,6 @@ int find_barycenter(int const start_id, double* avg_features){
 			}
 		}
 		else{ //Leaf
-			stack[depth] = -1; //Reset to -1
-			depth -= 1;
 			i += 1;
 
 			//Count the number of data points
@@ -1746,11 +1736,7 @@ int find_barycenter(int const start_id, double* avg_features){
 				break;
 			node_id = node.parent;
 		}
-		if(depth >= max_stack_size)
-			return -1;
 	}
-	if(depth != -1)
-		return -1;
 	for(int i = 0; i < feature_count; ++i){
 		avg_features[i] /= count[i];
 	}
-- 
2.43.0


From fa649d7c93eb8211095922e7cad429b2615c3ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:27 +0000
Subject: [PATCH 54/61] fix: CoarseMondrianForest counted -1 points and leaves
 in trees deeper than 100 nodes

---
 src/mondrian_coarse.hpp | 56 +++++++++++------------------------------
 1 file changed, 14 insertions(+), 42 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 137c5ed..276b99c 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -1561,34 +1561,26 @@ int count_fe_down(int const start_id, feature_type const* features) const{
 }
 template<int max_stack_size=100>
 int count_dead_supply(int const start_id){
-	//Initialize an array to keep track of where we have to go at each tree level.
-	//The max depth expected is MAX_DEPTH.
-	int stack[max_stack_size];
-	for(int i = 0; i < max_stack_size; ++i)
-		stack[i] = -1;
+	//The node visited before the current one, to know where we have to go without a stack: the depth has no limit.
+	int previous_id = Node::EMPTY_NODE;
 
 	int node_id = start_id;
-	int depth = 0;
 	double dead_node = 0;
 	//a for loop instead of a while to avoid infinite loops. Since we don't expect to do more turn than node_count
 	//*i* count the number of node deleted.
 	int i = 0;
 	while(i < node_count && node_id >= 0){
 		Node& node = nodes()[node_id];
+		int const came_from = previous_id;
+		previous_id = node_id;
 		if(!node.is_leaf()){  //Internal node
-			if (stack[depth] == -1){ //Go right
-				stack[depth] = 0;
-				depth += 1;
+			if (came_from == node.parent){ //Go right
 				node_id = node.child_right;
 			}
-			else if (stack[depth] == 0){ //Go left
-				stack[depth] = 1;
-				depth += 1;
+			else if (came_from == node.child_right){ //Go left
 				node_id = node.child_left;
 			}
-			else if (stack[depth] == 1){ //Go up
-				stack[depth] = -1; //Reset to -1
-				depth -= 1;
+			else{ //Go up
 				i += 1;
 				if(node_id == start_id)
 					break;
@@ -1596,8 +1588,6 @@ int count_dead_supply(int const start_id){
 			}
 		}
 		else{ //Leaf
-			stack[depth] = -1; //Reset to -1
-			depth -= 1;
 			i += 1;
 
 			//Count the number of data points
@@ -1612,11 +1602,7 @@ int count_dead_supply(int const start_id){
 				break;
 			node_id = node.parent;
 		}
-		if(depth >= max_stack_size)
-			return -1;
 	}
-	if(depth != -1)
-		return -1;
 	return dead_node;
 }
 double count_dead_supply_tree(int const tree_id){
@@ -1627,34 +1613,26 @@ double count_dead_supply_tree(int const tree_id){
 }
 template<int max_stack_size=100>
 int count_data_point_node(int const start_id){
-	//Initialize an array to keep track of where we have to go at each tree level.
-	//The max depth expected is MAX_DEPTH.
-	int stack[max_stack_size];
-	for(int i = 0; i < max_stack_size; ++i)
-		stack[i] = -1;
+	//The node visited before the current one, to know where we have to go without a stack: the depth has no limit.
+	int previous_id = Node::EMPTY_NODE;
 
 	int node_id = start_id;
-	int depth = 0;
 	double sum = 0;
 	//a for loop instead of a while to avoid infinite loops. Since we don't expect to do more turn than node_count
 	//*i* count the number of node deleted.
 	int i = 0;
 	while(i < node_count && node_id >= 0){
 		Node& node = nodes()[node_id];
+		int const came_from = previous_id;
+		previous_id = node_id;
 		if(!node.is_leaf()){  //Internal node
-			if (stack[depth] == -1){ //Go right
-				stack[depth] = 0;
-				depth += 1;
+			if (came_from == node.parent){ //Go right
 				node_id = node.child_right;
 			}
-			else if (stack[depth] == 0){ //Go left
-				stack[depth] = 1;
-				depth += 1;
+			else if (came_from == node.child_right){ //Go left
 				node_id = node.child_left;
 			}
-			else if (stack[depth] == 1){ //Go up
-				stack[depth] = -1; //Reset to -1
-				depth -= 1;
+			else{ //Go up
 				i += 1;
 				if(node_id == start_id)
 					break;
@@ -1662,8 +1640,6 @@ int count_data_point_node(int const start_id){
 			}
 		}
 		else{ //Leaf
-			stack[depth] = -1; //Reset to -1
-			depth -= 1;
 			i += 1;
 
 			//Count the number of data points
@@ -1674,11 +1650,7 @@ int count_data_point_node(int const start_id){
 				break;
 			node_id = node.parent;
 		}
-		if(depth >= max_stack_size)
-			return -1;
 	}
-	if(depth != -1)
-		return -1;
 	return sum;
 }
 int count_data_point_tree(int const tree_id){
-- 
2.43.0


From 23de665e2f2cb3eb32c7fe4776ff5e3165c1fc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:54 +0000
Subject: [PATCH 55/61] fix: CoarseMondrianForest with EXTEND_BARYCENTER could
 extend a box beyond the data point by rounding

---
 src/mondrian_coarse.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 276b99c..73df85f 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -873,10 +873,14 @@ void extend_block4(int const node_id, int const tree_id, feature_type const* fea
 			if(node.bound_lower[i] > features[i]){
 				double const difference = (node.bound_lower[i] - features[i]) * fe_parameter;
 				node.bound_lower[i] -= difference;
+				if(node.bound_lower[i] < features[i]) //The difference may be rounded up
+					node.bound_lower[i] = features[i];
 			}
 			if(node.bound_upper[i] < features[i]){
 				double const difference = (features[i] - node.bound_upper[i]) * fe_parameter;
 				node.bound_upper[i] += difference;
+				if(node.bound_upper[i] > features[i]) //The difference may be rounded up
+					node.bound_upper[i] = features[i];
 			}
 		}
 		//Check if it's a forced extend
-- 
2.43.0


From 326740af5128d2272470c7c8a7a22d99ef7c2e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:25 +0000
Subject: [PATCH 56/61] fix: CoarseMondrianForest with EXTEND_BARYCENTER left
 the data point out of the extended box by rounding

---
 src/mondrian_coarse.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 73df85f..b3a141c 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -873,13 +873,13 @@ void extend_block4(int const node_id, int const tree_id, feature_type const* fea
 			if(node.bound_lower[i] > features[i]){
 				double const difference = (node.bound_lower[i] - features[i]) * fe_parameter;
 				node.bound_lower[i] -= difference;
-				if(node.bound_lower[i] < features[i]) //The difference may be rounded up
+				if(fe_parameter == 1 || node.bound_lower[i] < features[i]) //The difference may be rounded
 					node.bound_lower[i] = features[i];
 			}
 			if(node.bound_upper[i] < features[i]){
 				double const difference = (features[i] - node.bound_upper[i]) * fe_parameter;
 				node.bound_upper[i] += difference;
-				if(node.bound_upper[i] > features[i]) //The difference may be rounded up
+				if(fe_parameter == 1 || node.bound_upper[i] > features[i]) //The difference may be rounded
 					node.bound_upper[i] = features[i];
 			}
 		}
-- 
2.43.0


From c85bbd6da878f0ce55e7a50603b6c7ae5da3dfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:41 +0000
Subject: [PATCH 57/61] fix: CoarseMondrianForest shared the forced extends out
 by the points on the left on both sides

---
 src/mondrian_coarse.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index b3a141c..e717659 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -1081,7 +1081,7 @@ void split_node(int const node_id, int const tree_id, feature_type const* featur
 	}
 	else if(fe_distribution == FE_DISTRIBUTION_PROPORTIONAL){
 		double const sum_count = static_cast<double>(count_left + count_right);
-		double const ratio_fe = subtree_on_left ? static_cast<double>(count_left)/sum_count : static_cast<double>(count_left)/sum_count;
+		double const ratio_fe = subtree_on_left ? static_cast<double>(count_left)/sum_count : static_cast<double>(count_right)/sum_count;
 		new_sibling.forced_extend = (1-ratio_fe) * node.forced_extend;
 		node.forced_extend *= ratio_fe;
 	}
@@ -1219,7 +1219,7 @@ bool split_barycenter(int const node_id, int const tree_id, feature_type const*
 	}
 	else if(fe_distribution == FE_DISTRIBUTION_PROPORTIONAL){
 		double const sum_count = static_cast<double>(count_left + count_right);
-		double const ratio_fe = subtree_on_left ? static_cast<double>(count_left)/sum_count : static_cast<double>(count_left)/sum_count;
+		double const ratio_fe = subtree_on_left ? static_cast<double>(count_left)/sum_count : static_cast<double>(count_right)/sum_count;
 		new_sibling.forced_extend = (1-ratio_fe) * node.forced_extend;
 		node.forced_extend *= ratio_fe;
 	}
-- 
2.43.0


From 0930fd4d7268907be6d3e4950312e9c999f9ba9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:41 +0000
Subject: [PATCH 58/61] fix: CoarseMondrianForest::adjust_counters counted a
 point twice when it split an odd counter in halves

---
 src/mondrian_coarse.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index e717659..fcc6eb4 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -1501,10 +1501,8 @@ int adjust_counters(int const start_id, int split_dimension, double split_value,
 				percentage = 1 - percentage;
 			for(int i = 0; i < label_count; ++i){
 				int counter_out = Utils::round(static_cast<double>(node.counters[i]) * percentage);
-				int counter_in = Utils::round(static_cast<double>(node.counters[i]) * (1 - percentage));
-				int const err = node.counters[i] - counter_in - counter_out;
-				if(err != 0)
-					cout << "Error counters" << endl;
+				//NOTE: both parts rounded apart may not add up to the counter
+				int counter_in = node.counters[i] - counter_out;
 				to_remove[i] += counter_out;
 				node.counters[i] = counter_in;
 			}
-- 
2.43.0


From 8517a5a57808ef33875dbd81dfc0d258a9dfda94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:41 +0000
Subject: [PATCH 59/61] fix: CoarseMondrianForest::adjust_boxes removed leaves
 without width and the points in them

---
 src/mondrian_coarse.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index fcc6eb4..be055bb 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -1350,12 +1350,15 @@ int adjust_boxes(int const start_id, int const split_dimension, double const spl
 					if(node.bound_lower[split_dimension] < split_value)
 						node.bound_lower[split_dimension] = split_value;
 				}
-				if(node.bound_upper[split_dimension] - node.bound_lower[split_dimension] == 0){ //This box is zero, let's go up
+				//NOTE: a box may have no width before it is cut
+				if(node.bound_upper[split_dimension] == split_value && node.bound_lower[split_dimension] == split_value){ //Nothing is left of this box, let's go up
 					depth -= 1;
-					node_id = node.parent;
 					node_reset(node.child_right);
 					node_reset(node.child_left);
-					//NOTE the start_id node shouldn't be at zero.
+					node.chop();
+					if(node_id == start_id)
+						break;
+					node_id = node.parent;
 				}
 				else{ //Go right
 					stack[depth] = 0;
@@ -1375,8 +1378,8 @@ int adjust_boxes(int const start_id, int const split_dimension, double const spl
 
 				Node const& child_left = nodes()[node.child_left];
 				Node const& child_right = nodes()[node.child_right];
-				int const left_zeroed = (child_left.bound_upper[split_dimension] - child_left.bound_lower[split_dimension] == 0);
-				int const right_zeroed = (child_right.bound_upper[split_dimension] - child_right.bound_lower[split_dimension] == 0);
+				bool const left_zeroed = (child_left.bound_upper[split_dimension] == split_value && child_left.bound_lower[split_dimension] == split_value);
+				bool const right_zeroed = (child_right.bound_upper[split_dimension] == split_value && child_right.bound_lower[split_dimension] == split_value);
 				bool const is_root = (node.parent < 0);
 				bool const is_starting = (node_id == start_id);
 				//NOTE either left or right is zeroed. If both are, then we stop going down at that node before
@@ -1495,10 +1498,13 @@ int adjust_counters(int const start_id, int split_dimension, double split_value,
 			//Compute size of box
 			double const max_value = node.bound_upper[split_dimension] - node.bound_lower[split_dimension];
 			//Get the percentage on the left (below the split value)
-			double percentage = Utils::min(Utils::max((split_value - node.bound_lower[split_dimension]) / max_value, 0.0), 1.0);
+			double percentage = max_value > 0 ? Utils::min(Utils::max((split_value - node.bound_lower[split_dimension]) / max_value, 0.0), 1.0) : (split_value > node.bound_lower[split_dimension] ? 1 : 0);
 			//If this sub-tree is not on the left, invert percentage
 			if(!discharge_left)
 				percentage = 1 - percentage;
+			//NOTE: adjust_boxes removes the leaves which have nothing but the split on their side
+			if(max_value == 0 && split_value == node.bound_lower[split_dimension])
+				percentage = 1;
 			for(int i = 0; i < label_count; ++i){
 				int counter_out = Utils::round(static_cast<double>(node.counters[i]) * percentage);
 				//NOTE: both parts rounded apart may not add up to the counter
-- 
2.43.0


From eaae152d5ccac3e7bedb1d4cb9a5e6f7021fd69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:31 +0000
Subject: [PATCH 60/61] fix: CoarseMondrianForest divided zero by zero to share
 the forced extends of a leaf without points out

---
 src/mondrian_coarse.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index be055bb..588e83e 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -1081,7 +1081,8 @@ void split_node(int const node_id, int const tree_id, feature_type const* featur
 	}
 	else if(fe_distribution == FE_DISTRIBUTION_PROPORTIONAL){
 		double const sum_count = static_cast<double>(count_left + count_right);
-		double const ratio_fe = subtree_on_left ? static_cast<double>(count_left)/sum_count : static_cast<double>(count_right)/sum_count;
+		//NOTE: a leaf may have no points
+		double const ratio_fe = sum_count == 0 ? 0.5 : subtree_on_left ? static_cast<double>(count_left)/sum_count : static_cast<double>(count_right)/sum_count;
 		new_sibling.forced_extend = (1-ratio_fe) * node.forced_extend;
 		node.forced_extend *= ratio_fe;
 	}
@@ -1219,7 +1220,8 @@ bool split_barycenter(int const node_id, int const tree_id, feature_type const*
 	}
 	else if(fe_distribution == FE_DISTRIBUTION_PROPORTIONAL){
 		double const sum_count = static_cast<double>(count_left + count_right);
-		double const ratio_fe = subtree_on_left ? static_cast<double>(count_left)/sum_count : static_cast<double>(count_right)/sum_count;
+		//NOTE: a leaf may have no points
+		double const ratio_fe = sum_count == 0 ? 0.5 : subtree_on_left ? static_cast<double>(count_left)/sum_count : static_cast<double>(count_right)/sum_count;
 		new_sibling.forced_extend = (1-ratio_fe) * node.forced_extend;
 		node.forced_extend *= ratio_fe;
 	}
-- 
2.43.0


From c1c75fe73eca304892449b3f8bb1b4504bb38dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:03 +0000
Subject: [PATCH 61/61] fix: CoarseMondrianForest::adjust_boxes left a leaf
 with the time and the counters of an inner node

---
 src/mondrian_coarse.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mondrian_coarse.hpp b/src/mondrian_coarse.hpp
index 588e83e..a70e9cd 100644
--- a/src/mondrian_coarse.hpp
+++ b/src/mondrian_coarse.hpp
@@ -1358,8 +1358,12 @@ int adjust_boxes(int const start_id, int const split_dimension, double const spl
 					node_reset(node.child_right);
 					node_reset(node.child_left);
 					node.chop();
-					if(node_id == start_id)
+					if(node_id == start_id){ //It stays, as a leaf without points
+						node.tau = lifetime;
+						for(int k = 0; k < label_count; ++k)
+							node.counters[k] = 0;
 						break;
+					}
 					node_id = node.parent;
 				}
 				else{ //Go right
-- 
2.43.0

